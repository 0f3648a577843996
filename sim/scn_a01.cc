// A01 Every failure of the C interface is a return code, with its own message.
#include "harness.h"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <set>
#include <unistd.h>
#include "eckit/exception/Exceptions.h"
using namespace sim;
using namespace hn;

namespace {
// ------------------------------------------------------------------ what went wrong during the current call
struct Event {                        // one failing callback
    int how;
    std::string token;                // text of the exception thrown
};
std::vector<Event> events;
int tokens = 0;
std::string newToken() { return strf("TK%dE", ++tokens); }
std::vector<int> tokensIn(const std::string& m) {
    std::vector<int> o;
    for (size_t p = 0; (p = m.find("TK", p)) != std::string::npos; p += 2) {
        size_t e = p + 2;
        while (e < m.size() && isdigit((unsigned char)m[e])) e++;
        if (e > p + 2 && e < m.size() && m[e] == 'E') o.push_back(atoi(m.c_str() + p + 2));
    }
    return o;
}

// ------------------------------------------------------------------ the failure handler
struct Ctx { int id; int calls = 0; int code = 0; std::string text; };
Ctx ctxs[4] = {{0}, {1}, {2}, {3}};       // the last one stands for a handler registered without a context
void* contextOf(int i) { return i == 3 ? nullptr : &ctxs[i]; }
int handlerOn = -1;                   // which context is registered, -1: no handler
int strays = 0;
void onFail(void* context, int code) {
    for (auto& c : ctxs) if (context == contextOf(c.id)) { c.calls++; c.code = code; c.text = odc_error_string(code); return; }
    strays++;
}

enum Expect { OKAY, END, FAIL, ANY, ENDORFAIL };
const char* expName(Expect e) { static const char* n[] = {"success", "end of data", "failure", "anything", "end of data or failure"}; return n[e]; }
std::string lastMsg;
// makes one call and judges everything about it but its results
int call(const char* name, Expect want, const std::function<int()>& f, const std::string& mention = "") {
    step();
    for (auto& c : ctxs) { c.calls = 0; c.text.clear(); }
    strays = 0;
    events.clear();
    int firstToken = tokens + 1;
    if (!mention.empty()) firstToken = std::min(firstToken, tokensIn(mention)[0]);
    uint64_t fired = vfs::faultsFired();
    int rc = -1;
    std::string escaped;
    bool threw = true;
    try { rc = f(); threw = false; }
    catch (std::exception& e) { escaped = e.what(); }
    catch (...) { escaped = "(unknown)"; }
    SIM_CHECK(!threw, "exception-escaped", "%s: an exception reached the caller: %s", name, escaped.c_str());
    SIM_CHECK(rc == ODC_SUCCESS || rc == ODC_ITERATION_COMPLETE || rc == ODC_ERROR_GENERAL_EXCEPTION || rc == ODC_ERROR_UNKNOWN_EXCEPTION, "undocumented-code", "%s returned %d", name, rc);
    bool failed = rc == ODC_ERROR_GENERAL_EXCEPTION || rc == ODC_ERROR_UNKNOWN_EXCEPTION;
    if (vfs::faultsFired() != fired && want != FAIL) want = ANY;
    if (!events.empty() && want != ANY) want = FAIL;
    std::string msg = odc_error_string(rc);
    log("%s -> %d%s", name, rc, events.empty() ? "" : " (a callback failed)");
    note("   message: %s", msg.c_str());
    bool good = want == ANY || (want == OKAY && rc == ODC_SUCCESS) || (want == END && rc == ODC_ITERATION_COMPLETE) || (want == FAIL && failed) ||
                (want == ENDORFAIL && (failed || rc == ODC_ITERATION_COMPLETE));
    SIM_CHECK(good, want == FAIL || want == END ? "failure-not-reported" : "refused", "%s returned %d (%s), expected %s%s", name, rc, msg.c_str(), expName(want),
              events.empty() ? "" : strf(" as a callback failed (%s)", howName(events[0].how)).c_str());
    SIM_CHECK(strays == 0, "handler", "%s: the failure handler was called with a context that was never registered", name);
    for (auto& c : ctxs) {
        int n = failed && c.id == handlerOn ? 1 : 0;
        SIM_CHECK(c.calls == n, "handler", "%s returned %d: the failure handler with context %d was called %d times, expected %d", name, rc, c.id, c.calls, n);
        if (n) {
            SIM_CHECK(c.code == rc, "handler", "%s returned %d, the failure handler was told %d", name, rc, c.code);
            SIM_CHECK(c.text == msg, "message", "%s: the message within the failure handler is '%s', afterwards it is '%s'", name, c.text.c_str(), msg.c_str());
        }
    }
    SIM_CHECK(!msg.empty(), "message", "%s returned %d without a message", name, rc);
    if (failed) {
        for (int t : tokensIn(msg)) SIM_CHECK(t >= firstToken, "message", "%s: the message is that of an earlier failure: %s", name, msg.c_str());
        if (!mention.empty() && events.empty() && vfs::faultsFired() == fired)
            SIM_CHECK(msg.find(mention) != std::string::npos, "message", "%s: the message does not say what failed (%s): %s", name, mention.c_str(), msg.c_str());
        bool thrown = false, seen = false, plain = false;
        for (auto& e : events) {
            if (!e.token.empty()) { thrown = true; if (msg.find(e.token) != std::string::npos) seen = true; }
            else plain = true;
        }
        if (thrown && !plain) SIM_CHECK(seen, "message", "%s: a callback failed with %s, the message is: %s", name, events[0].token.c_str(), msg.c_str());
        count(rc == ODC_ERROR_GENERAL_EXCEPTION ? "c-failure" : "c-failure-unknown");
        lastMsg = msg;
    }
    return rc;
}

// ------------------------------------------------------------------ callbacks
struct Trap { long in = -1; int how = 0; };       // in: number of callback calls before the one that fails
Trap trap;
enum CallbackHow { CB_MINUS1 = 0, CB_ECKIT, CB_STD, CB_INT, CB_SHORT, CB_N };
bool sprung(long& result, long length) {
    if (trap.in < 0 || trap.in-- > 0) return false;
    switch (trap.how) {
        case CB_MINUS1: count("callback-returns-error"); events.push_back({H_MINUS1, ""}); result = -1; return true;
        case CB_ECKIT: { count("callback-throws"); std::string t = newToken(); events.push_back({H_READERROR, t}); throw eckit::ReadError(t, Here()); }
        case CB_STD: { count("callback-throws"); std::string t = newToken(); events.push_back({H_STDEXC, t}); throw std::runtime_error(t); }
        case CB_INT: count("callback-throws-int"); events.push_back({H_INT, ""}); throw 42;
        default: count("callback-short"); result = length / 2; return true;
    }
}
struct In {                           // a stream given to odc_open_stream
    const std::string* bytes;
    size_t pos = 0;
    int chunk = 0;
};
long readCb(void* h, void* buf, long len) {
    step();
    In* s = static_cast<In*>(h);
    long r = 0;
    if (trap.how != CB_SHORT && sprung(r, len)) return r;
    size_t n = std::min(size_t(len), s->bytes->size() - s->pos);
    note("   read %ld at %zu of %zu", len, s->pos, s->bytes->size());
    if (s->chunk) n = std::min(n, size_t(s->chunk));
    memcpy(buf, s->bytes->data() + s->pos, n);
    s->pos += n;
    return long(n);
}
struct Out { std::string got; };
long writeCb(void* h, const void* buf, long len) {
    step();
    Out* o = static_cast<Out*>(h);
    long r = len;
    if (sprung(r, len)) {
        if (r == len || r >= len) r = 0;
        if (r >= 0) { events.push_back({H_SHORT, ""}); o->got.append(static_cast<const char*>(buf), size_t(r)); }
        return r;
    }
    o->got.append(static_cast<const char*>(buf), size_t(len));
    return len;
}
void arm() {                          // a failure waits for one of the next callbacks or operations on the disk
    trap.in = long(flt(6));
    trap.how = int(flt(CB_N));
    if (!flt(2)) {
        static const int ops[] = {vfs::READ, vfs::READ, vfs::OPEN, vfs::WRITE, vfs::CLOSE, vfs::SEEK};
        static const int errs[] = {EIO, EACCES, EMFILE, ENOSPC, EINTR};
        int op = ops[flt(6)];
        int err = errs[op == vfs::READ ? 0 : flt(3)];
        if (op == vfs::WRITE) err = EIO;
        if (op == vfs::OPEN || op == vfs::READ || op == vfs::WRITE || op == vfs::CLOSE || op == vfs::SEEK) vfs::addFault({op, "/sim", flt(4), 1 + flt(2), vfs::ERR, err, 0});
    }
}
void disarm() { trap.in = -1; vfs::clearFaults(); }

// ------------------------------------------------------------------ objects
struct Src { ref::Stream s; std::string bytes; std::string path; };
struct Rd {
    odc_reader_t* r;
    int src;
    int mode = -1;                    // -1 undecided, 0 plain, 1 aggregated
    long limit = -1;
    ref::Stream want;
    size_t next = 0;
    bool broken = false;              // a call on it failed: position unknown
    bool seekable;
    std::unique_ptr<In> in;
};
struct Fr {
    odc_frame_t* f;
    int reader;
    bool has = false;                 // holds a frame
    ref::Frame want;
    bool dead = false;                // its reader was closed
};
struct DecCol { std::string name; int size; };
struct De {
    odc_decoder_t* d;
    std::vector<std::string> cols;
    std::map<std::string, int> sizes;     // bytes per element that the caller asked for
    std::map<std::string, int> widths;    // as they were at the first decode: they stay
    long rows = 0;
    bool odd = false;                 // its state depends on a failed call: only to be freed, or used with any result
    bool ext = false;
    std::vector<uint64_t> arr;
    long w = 0, h = 0;
    bool major = false;
};
struct En {
    odc_encoder_t* e;
    ref::Frame t;
    std::vector<std::vector<uint64_t>> cols;
    std::vector<uint64_t> arr;
    long rowBytes = 0;
    long rows = 0, perFrame = 10000;
    bool array = false;
    bool complete = true;             // all it needs is there
    std::map<std::string, std::string> props;
};
void putCell(uint64_t* p, const ref::Col& c, const ref::Cell& v) {
    if (c.isStr()) { memset(p, 0, size_t(c.width) * 8); memcpy(p, v.s.data(), std::min(v.s.size(), size_t(c.width) * 8)); }
    else if (c.type == ref::INTEGER || c.type == ref::BITFIELD) { int64_t q = int64_t(v.d); memcpy(p, &q, 8); }
    else memcpy(p, &v.d, 8);
}
ref::Cell getCell(const char* p, const ref::Col& c) {
    ref::Cell x;
    if (c.isStr()) x.s = std::string(p, strnlen(p, size_t(c.width) * 8));
    else if (c.type == ref::INTEGER || c.type == ref::BITFIELD) { int64_t q; memcpy(&q, p, 8); x.d = double(q); }
    else memcpy(&x.d, p, 8);
    return x;
}
void pointEncoder(En& e) {            // (again) tells the encoder where the data is
    if (e.array) call("odc_encoder_set_data_array", OKAY, [&] { return odc_encoder_set_data_array(e.e, e.arr.data(), e.rowBytes, e.rows, 0); });
}
En makeEncoder() {
    En e;
    call("odc_new_encoder", OKAY, [&] { return odc_new_encoder(&e.e); });
    ref::GenOpts o;
    o.maxFrames = 1; o.minRows = 1; o.writerLike = true; o.swap = false; o.props = false; o.missings = 0;
    ref::Stream s = ref::genStream(o);
    e.t = s[0];
    e.rows = long(e.t.rows.size());
    e.array = gen(2);
    for (auto& c : e.t.cols) {
        call("odc_encoder_add_column", OKAY, [&] { return odc_encoder_add_column(e.e, c.name.c_str(), c.type); });
        e.rowBytes += c.width * 8;
    }
    size_t at = 0;
    e.arr.assign(size_t(e.rows) * size_t(e.rowBytes) / 8 + 1, 0);
    for (size_t k = 0; k < e.t.cols.size(); k++) {
        auto& c = e.t.cols[k];
        size_t w = size_t(c.width);
        e.cols.emplace_back(size_t(e.rows) * w);
        for (size_t r = 0; r < size_t(e.rows); r++) {
            putCell(&e.cols[k][r * w], c, e.t.rows[r][k]);
            putCell(&e.arr[r * size_t(e.rowBytes) / 8 + at], c, e.t.rows[r][k]);
        }
        at += w;
        for (auto& b : c.bits) call("odc_encoder_column_add_bitfield", OKAY, [&] { return odc_encoder_column_add_bitfield(e.e, int(k), b.first.c_str(), b.second); });
        if (e.array) call("odc_encoder_column_set_data_size", OKAY, [&] { return odc_encoder_column_set_data_size(e.e, int(k), c.width * 8); });
        else call("odc_encoder_column_set_data_array", OKAY, [&] { return odc_encoder_column_set_data_array(e.e, int(k), c.width * 8, 0, e.cols[k].data()); });
    }
    call("odc_encoder_set_row_count", OKAY, [&] { return odc_encoder_set_row_count(e.e, e.rows); });
    pointEncoder(e);
    return e;
}
void checkEncoded(const En& e, const std::string& bytes, const char* who) {
    ref::Decoded d = ref::decode(bytes);
    SIM_CHECK(d.ok, "wrong-data", "%s: what was encoded cannot be read: %s", who, d.error.c_str());
    ref::Stream want{e.t};
    ref::Stream parts;
    for (size_t r = 0; r < e.t.rows.size(); r += size_t(e.perFrame)) {
        ref::Frame f = e.t;
        f.rows.assign(e.t.rows.begin() + long(r), e.t.rows.begin() + long(std::min(e.t.rows.size(), r + size_t(e.perFrame))));
        f.props = e.props;
        parts.push_back(f);
    }
    stripEncoder(d.frames);
    CmpOpts c; c.width = false; c.zeroSign = false; c.bits = true;
    std::string x = diffStream(parts, d.frames, false, c);
    SIM_CHECK(x.empty(), "wrong-data", "%s: %s", who, x.c_str());
}

struct World {
    std::vector<Src> srcs;
    std::vector<Rd> rds;
    std::vector<Fr> frs;
    std::vector<De> des;
    std::vector<En> ens;
    bool faulty = false;              // failures may be waiting

    template <class V> int some(const V& v) { return v.empty() ? -1 : int(draw(SCHED, uint32_t(v.size()))); }

    void open() {
        int k = int(gen(uint32_t(srcs.size())));
        Rd r;
        r.src = k; r.r = nullptr; r.seekable = true;
        int how = int(gen(4));
        int rc;
        if (how == 0) rc = call("odc_open_path", OKAY, [&] { return odc_open_path(&r.r, srcs[size_t(k)].path.c_str()); });
        else if (how == 1) {
            vfs::quiet(true); int fd = vfs::openFd(srcs[size_t(k)].path, O_RDONLY); vfs::quiet(false);
            rc = call("odc_open_file_descriptor", OKAY, [&] { return odc_open_file_descriptor(&r.r, fd); });
            vfs::quiet(true); ::close(fd); vfs::quiet(false);
        }
        else if (how == 2) rc = call("odc_open_buffer", OKAY, [&] { return odc_open_buffer(&r.r, srcs[size_t(k)].bytes.data(), long(srcs[size_t(k)].bytes.size())); });
        else {
            r.in.reset(new In{&srcs[size_t(k)].bytes, 0, gen(2) ? 1 + int(gen(50)) : 0});
            r.seekable = false;
            rc = call("odc_open_stream", OKAY, [&] { return odc_open_stream(&r.r, r.in.get(), readCb); });
        }
        if (rc == ODC_SUCCESS) rds.push_back(std::move(r));
    }
    void closeReader(size_t i) {
        int rc = call("odc_close", OKAY, [&] { return odc_close(rds[i].r); });
        (void)rc;
        for (auto& f : frs) if (f.reader == int(i)) f.dead = true;
        rds[i].r = nullptr;
    }
    void next(size_t fi) {
        Fr& f = frs[fi];
        Rd& r = rds[size_t(f.reader)];
        if (r.mode < 0) {
            r.mode = int(gen(2));
            if (r.mode && gen(2)) { r.limit = long(gen(30)); for (auto& x : srcs[size_t(r.src)].s) r.limit = std::max(r.limit, long(x.rows.size())); }
            r.want = r.mode ? aggregate(srcs[size_t(r.src)].s, r.limit) : srcs[size_t(r.src)].s;
        }
        bool atEnd = r.next >= r.want.size();
        Expect e = r.broken ? ANY : atEnd ? END : OKAY;
        int rc = call(r.mode ? "odc_next_frame_aggregated" : "odc_next_frame", e, [&] { return r.mode ? odc_next_frame_aggregated(f.f, r.limit) : odc_next_frame(f.f); });
        // after a failure the reader is where it was: it may fail again, but it neither skips a frame nor takes the failure for the end
        if (rc == ODC_SUCCESS) {
            SIM_CHECK(!atEnd, "extra-frame", "a frame after the end");
            f.has = true;
            f.want = r.want[r.next++];
            if (r.broken) count("resumed-after-failure");
        }
        else if (rc == ODC_ITERATION_COMPLETE) {
            f.has = false;
            SIM_CHECK(atEnd, "failure-as-end", "%sthe end of data is reported with %zu of %zu frames returned", r.broken ? "after a failure " : "", r.next, r.want.size());
        }
        else { r.broken = true; f.dead = true; }
    }
    void describe(Fr& f) {
        Expect e = f.has ? OKAY : FAIL;
        auto& w = f.want;
        switch (gen(6)) {
            case 0: { long n = -7; int rc = call("odc_frame_row_count", e, [&] { return odc_frame_row_count(f.f, &n); }); if (!rc) SIM_CHECK(n == long(w.rows.size()), "wrong-data", "row count %ld, want %zu", n, w.rows.size()); break; }
            case 1: { int n = -7; int rc = call("odc_frame_column_count", e, [&] { return odc_frame_column_count(f.f, &n); }); if (!rc) SIM_CHECK(n == int(w.cols.size()), "wrong-data", "column count %d, want %zu", n, w.cols.size()); break; }
            case 2: {
                int n = int(w.cols.size());
                int c = int(gen(uint32_t(n) + 3)) - 1;
                if (gen(10) == 9) c = gen(2) ? INT32_MAX : INT32_MIN;
                bool ok = f.has && c >= 0 && c < n;
                const char* nm = nullptr; int ty = -1, sz = -1, nb = -1;
                int rc = call("odc_frame_column_attributes", ok ? OKAY : FAIL, [&] { return odc_frame_column_attributes(f.f, c, gen(4) ? &nm : nullptr, gen(4) ? &ty : nullptr, &sz, &nb); });
                if (!rc) {
                    auto& k = w.cols[size_t(c)];
                    SIM_CHECK((!nm || k.name == nm) && (ty < 0 || ty == k.type) && sz == k.width * 8 && nb == int(k.bits.size()), "wrong-data", "column %d is described as %s type %d size %d with %d bitfields; it is %s type %d size %d with %zu",
                              c, nm ? nm : "-", ty, sz, nb, k.name.c_str(), k.type, k.width * 8, k.bits.size());
                }
                break;
            }
            case 3: {
                int n = int(w.cols.size());
                int c = int(gen(uint32_t(n) + 2)) - 1;
                int nb = c >= 0 && c < n ? int(w.cols[size_t(c)].bits.size()) : 1;
                int b = int(gen(uint32_t(nb) + 2)) - 1;
                bool ok = f.has && c >= 0 && c < n && b >= 0 && b < nb;
                const char* nm = nullptr; int off = -1, sz = -1;
                int rc = call("odc_frame_bitfield_attributes", ok ? OKAY : FAIL, [&] { return odc_frame_bitfield_attributes(f.f, c, b, &nm, &off, &sz); });
                if (!rc) SIM_CHECK(w.cols[size_t(c)].bits[size_t(b)].first == nm && w.cols[size_t(c)].bits[size_t(b)].second == sz, "wrong-data", "bitfield %d of column %d", b, c);
                break;
            }
            case 4: {
                int n = -7;
                int rc = call("odc_frame_properties_count", e, [&] { return odc_frame_properties_count(f.f, &n); });
                if (!rc) SIM_CHECK(n == int(w.props.size()), "wrong-data", "properties count %d, want %zu", n, w.props.size());
                int i = int(gen(uint32_t(w.props.size()) + 3)) - 1;
                const char *k = nullptr, *v = nullptr;
                rc = call("odc_frame_property_idx", f.has && i >= 0 && i < int(w.props.size()) ? OKAY : FAIL, [&] { return odc_frame_property_idx(f.f, i, &k, &v); });
                if (!rc) SIM_CHECK(k && v && w.props.count(k) && w.props.at(k) == v, "wrong-data", "property %d is %s", i, k ? k : "null");
                break;
            }
            default: {
                const char* v = reinterpret_cast<const char*>(&f);
                std::string key = w.props.empty() || gen(2) ? std::string("no such key") : w.props.begin()->first;
                int rc = call("odc_frame_property", e, [&] { return odc_frame_property(f.f, key.c_str(), &v); });
                if (!rc) SIM_CHECK(w.props.count(key) ? v && w.props.at(key) == v : v == nullptr, "wrong-data", "property %s is %s", key.c_str(), v ? v : "null");
            }
        }
    }
    // what decoding the frame with this decoder has to do
    Expect decodable(const De& d, const ref::Frame& w, int threads) {
        if (d.odd) return ANY;
        if (threads < 1 || d.cols.size() > w.cols.size()) return FAIL;
        if (d.rows < long(w.rows.size())) return d.rows < 0 && d.cols.empty() ? ANY : FAIL;
        std::set<std::string> seen;
        long width = 0;
        for (auto& n : d.cols) {
            int k = w.find(n);
            if (k < 0) {
                for (auto& c : w.cols) if (c.name.substr(0, c.name.find('@')) == n) return ANY;
                return FAIL;
            }
            if (!seen.insert(n).second) return FAIL;
            for (size_t j = 0; j < w.cols.size(); j++) if (int(j) != k && w.cols[j].name == n) return ANY;
            auto sz = d.sizes.find(n);
            if (sz != d.sizes.end()) {
                if (sz->second < w.cols[size_t(k)].width * 8) return d.rows ? FAIL : ANY;
                if (!w.cols[size_t(k)].isStr() && sz->second != 8) return ANY;
                width += sz->second;
                continue;
            }
            if (d.widths.count(n) && d.widths.at(n) != w.cols[size_t(k)].width) return ANY;
            width += w.cols[size_t(k)].width * 8;
        }
        if (d.ext && width && (width > d.w || d.rows > d.h)) return d.rows ? FAIL : ANY;           // without rows nothing is stored
        return OKAY;
    }
    void decode(De& d) {
        int fi = -1;
        for (int k = 0; k < 4; k++) {             // mostly a frame that has got the columns
            fi = some(frs);
            if (fi < 0) return;
            auto& x = frs[size_t(fi)];
            if (!x.dead && x.has && decodable(d, x.want, 1) == OKAY) break;
        }
        Fr& f = frs[size_t(fi)];
        if (f.dead) return;
        auto& w = f.want;
        int threads = gen(8) == 7 ? -int(gen(3)) : 1;           // more than one thread: T01, A02
        Expect e = f.has ? decodable(d, w, threads) : FAIL;
        if (e == ANY) return;
        if (e == OKAY && !d.cols.empty() && (d.rows < 0 || d.rows > 1l << 30)) e = FAIL;
        if (e == OKAY && !rds[size_t(f.reader)].seekable) e = ANY;      // a stream cannot be read twice, nor in another order
        std::string mention;
        for (auto& n : d.cols) if (f.has && w.find(n) >= 0 && !d.widths.count(n)) d.widths[n] = w.cols[size_t(w.find(n))].width;
        if (d.ext) std::fill(d.arr.begin(), d.arr.end(), 0xB6B6B6B6B6B6B6B6ull);
        long rows = -7;
        int rc = call(threads == 1 ? "odc_decode" : "odc_decode_threaded", e, [&] { return threads == 1 ? odc_decode(d.d, f.f, &rows) : odc_decode_threaded(d.d, f.f, &rows, threads); }, mention);
        if (rc) return;
        SIM_CHECK(rows == long(w.rows.size()), "wrong-data", "%ld rows decoded, want %zu", rows, w.rows.size());
        if (!rows || d.cols.empty()) return;
        const void* data = nullptr; long W = 0, H = 0; bool cm = false;
        call("odc_decoder_data_array", OKAY, [&] { return odc_decoder_data_array(d.d, &data, &W, &H, &cm); });
        SIM_CHECK(cm == d.major, "wrong-data", "column order of the data array");
        if (d.ext) SIM_CHECK(data == d.arr.data() + 1 && d.arr.front() == 0xB6B6B6B6B6B6B6B6ull && d.arr.back() == 0xB6B6B6B6B6B6B6B6ull, "outside-touched", "the caller's array was overrun or replaced");
        for (size_t k = 0; k < d.cols.size(); k++) {
            auto& c = w.cols[size_t(w.find(d.cols[k]))];
            int es = 0, st = 0; const void* p = nullptr;
            call("odc_decoder_column_data_array", OKAY, [&] { return odc_decoder_column_data_array(d.d, int(k), &es, &st, &p); });
            if (cm && es > 8) continue;      // transposed: one column per word, judged elsewhere
            if (es < c.width * 8) violation("wrong-data", "column %zu has element size %d, %d needed", k, es, c.width * 8);
            for (size_t r = 0; r < size_t(rows); r++) {
                ref::Cell x = getCell(static_cast<const char*>(p) + long(r) * st, c), y = w.rows[r][size_t(w.find(d.cols[k]))];
                SIM_CHECK(x == y, "wrong-data", "decoding: row %zu column %s: got %s, want %s", r, c.name.c_str(), ref::show(c, x).c_str(), ref::show(c, y).c_str());
            }
        }
        count("c-decoded");
    }
    void newDecoder() {
        De d;
        d.d = nullptr;
        call("odc_new_decoder", OKAY, [&] { return odc_new_decoder(&d.d); });
        int fi = some(frs);
        for (int k = 0; k < 3 && fi >= 0 && (frs[size_t(fi)].dead || !frs[size_t(fi)].has); k++) fi = some(frs);
        if (fi >= 0 && !frs[size_t(fi)].dead && gen(4)) {
            Fr& f = frs[size_t(fi)];
            int rc = call("odc_decoder_defaults_from_frame", f.has ? OKAY : FAIL, [&] { return odc_decoder_defaults_from_frame(d.d, f.f); });
            if (rc == 0) { for (auto& c : f.want.cols) d.cols.push_back(c.name); d.rows = long(f.want.rows.size()); }
        } else {
            auto& s = srcs[gen(uint32_t(srcs.size()))].s;
            if (!s.empty()) for (auto& c : s[0].cols) if (gen(2)) addColumn(d, c.name);
            d.rows = long(gen(40));
            call("odc_decoder_set_row_count", OKAY, [&] { return odc_decoder_set_row_count(d.d, d.rows); });
        }
        des.push_back(std::move(d));
    }
    void addColumn(De& d, const std::string& n) {
        call("odc_decoder_add_column", OKAY, [&] { return odc_decoder_add_column(d.d, n.c_str()); });
        d.cols.push_back(n);
    }
    void adjust(De& d) {
        int nc = int(d.cols.size());
        switch (gen(9)) {
            case 8: {                 // so many bytes per element, perhaps too few
                if (!nc) break;
                int c = int(gen(uint32_t(nc))), size = 8 * (1 + int(gen(3)));
                if (std::count(d.cols.begin(), d.cols.end(), d.cols[size_t(c)]) > 1) break;
                call("odc_decoder_column_set_data_size", OKAY, [&] { return odc_decoder_column_set_data_size(d.d, c, size); });
                d.sizes[d.cols[size_t(c)]] = size;
                break;
            }
            case 0:
                if (gen(4) == 3) {    // more rows than there is memory, or addresses
                    static const long many[] = {-1, 1l << 61, 1l << 60, 1l << 62, 0x7fffffffffffffffl, 1l << 40, -(1l << 61), (1l << 61) + 1};
                    d.rows = many[gen(8)];
                    call("odc_decoder_set_row_count", ANY, [&] { return odc_decoder_set_row_count(d.d, d.rows); });
                    decode(d);
                }
                d.rows = long(gen(40));
                call("odc_decoder_set_row_count", OKAY, [&] { return odc_decoder_set_row_count(d.d, d.rows); });
                break;
            case 1: { long n = -7; call("odc_decoder_row_count", OKAY, [&] { return odc_decoder_row_count(d.d, &n); }); SIM_CHECK(n == d.rows, "wrong-data", "decoder row count %ld, want %ld", n, d.rows); break; }
            case 2: { int n = -7; call("odc_decoder_column_count", OKAY, [&] { return odc_decoder_column_count(d.d, &n); }); SIM_CHECK(n == nc, "wrong-data", "decoder column count %d, want %d", n, nc); break; }
            case 3: {                 // a column that is nowhere, or is there already
                if (nc && gen(3)) break;
                if (nc && gen(2)) { addColumn(d, std::string(d.cols[gen(uint32_t(nc))])); break; }
                addColumn(d, strf("nowhere%u", gen(1000)));
                break;
            }
            case 4: call("odc_decoder_add_column", FAIL, [&] { return odc_decoder_add_column(d.d, nullptr); }); break;
            case 5: {                 // an index out of range, or a negative size
                int c = gen(2) ? nc + int(gen(3)) : -1 - int(gen(3));
                int es = 8, st = 8; const void* p = nullptr; double x;
                switch (gen(3)) {
                    case 0: call("odc_decoder_column_set_data_size", FAIL, [&] { return odc_decoder_column_set_data_size(d.d, c, 8); }); break;
                    case 1: call("odc_decoder_column_set_data_array", FAIL, [&] { return odc_decoder_column_set_data_array(d.d, c, 8, 8, &x); }); break;
                    default: call("odc_decoder_column_data_array", FAIL, [&] { return odc_decoder_column_data_array(d.d, c, &es, &st, &p); });
                }
                if (nc) call("odc_decoder_column_set_data_size", FAIL, [&] { return odc_decoder_column_set_data_size(d.d, 0, -8); });
                break;
            }
            case 6: {                 // an array of the caller, perhaps too small
                long w = 8 * (1 + long(gen(12))), h = 1 + long(gen(16));
                bool major = gen(4) == 3;
                std::vector<uint64_t> arr(size_t(w / 8 * h) + 2);
                if (gen(5) == 4) { call("odc_decoder_set_data_array", FAIL, [&] { return gen(2) ? odc_decoder_set_data_array(d.d, nullptr, w, h, major) : odc_decoder_set_data_array(d.d, arr.data() + 1, gen(2) ? 0 : -8, h, major); }); break; }
                call("odc_decoder_set_data_array", OKAY, [&] { return odc_decoder_set_data_array(d.d, arr.data() + 1, w, h, major); });
                d.arr.swap(arr); d.w = w; d.h = h; d.rows = h; d.ext = true; d.major = major;
                if (gen(3) == 2) { d.rows = gen(2) ? h + 1 + long(gen(6)) : long(gen(40)); call("odc_decoder_set_row_count", OKAY, [&] { return odc_decoder_set_row_count(d.d, d.rows); }); }      // more than fit, perhaps
                if (gen(2)) decode(d);
                break;
            }
            default: d.major = gen(2); call("odc_decoder_set_column_major", OKAY, [&] { return odc_decoder_set_column_major(d.d, d.major); });
        }
    }
    void encode(En& e) {
        pointEncoder(e);
        Expect x = e.complete ? OKAY : FAIL;
        long n = -7;
        std::string got;
        int rc;
        int how = int(gen(3));
        if (how == 0) {
            Out o;
            rc = call("odc_encode_to_stream", x, [&] { return odc_encode_to_stream(e.e, &o, writeCb, &n); });
            got = o.got;
        } else if (how == 1) {
            vfs::quiet(true); int fd = vfs::openFd("/sim/out.odb", O_RDWR | O_CREAT | O_TRUNC); vfs::quiet(false);
            uint64_t before = vfs::faultsFired();
            rc = call("odc_encode_to_file_descriptor", x, [&] { return odc_encode_to_file_descriptor(e.e, fd, &n); });
            vfs::quiet(true); ::close(fd); got = vfs::get("/sim/out.odb"); vfs::quiet(false);
            if (vfs::faultsFired() != before) SIM_CHECK(rc, "failure-not-reported", "writing to the descriptor failed, the call succeeded");
        } else {
            size_t room = 1 << 20;
            if (gen(3) == 2) { room = gen(600); x = ANY; }
            std::string buf(room + 1, '\x5c');
            rc = call("odc_encode_to_buffer", x, [&] { return odc_encode_to_buffer(e.e, &buf[0], long(room), &n); });
            if (!rc) { SIM_CHECK(n >= 0 && size_t(n) <= room, "wrong-data", "%ld bytes encoded into a buffer of %zu", n, room); got = buf.substr(0, size_t(n)); }
            SIM_CHECK(buf[room] == '\x5c', "outside-touched", "the buffer was overrun");
        }
        if (rc) return;
        SIM_CHECK(n == long(got.size()), "wrong-data", "%ld bytes encoded, %zu written", n, got.size());
        checkEncoded(e, got, "encoding");
        count("c-encoded");
    }
    void adjust(En& e) {
        int nc = int(e.t.cols.size());
        switch (gen(8)) {
            case 0: {                 // an index out of range
                int c = gen(2) ? nc + int(gen(3)) : -1 - int(gen(3));
                double x = 0;
                switch (gen(3)) {
                    case 0: call("odc_encoder_column_set_data_size", FAIL, [&] { return odc_encoder_column_set_data_size(e.e, c, 8); }); break;
                    case 1: call("odc_encoder_column_set_data_array", FAIL, [&] { return odc_encoder_column_set_data_array(e.e, c, 8, 8, &x); }); break;
                    default: call("odc_encoder_column_add_bitfield", FAIL, [&] { return odc_encoder_column_add_bitfield(e.e, c, "b", 1); });
                }
                break;
            }
            case 1: {                 // sizes that cannot be
                int es = gen(2) ? 4 : -8;
                if (gen(2)) call("odc_encoder_column_set_data_size", FAIL, [&] { return odc_encoder_column_set_data_size(e.e, 0, es); });
                else call("odc_encoder_column_set_data_array", FAIL, [&] { return odc_encoder_column_set_data_array(e.e, 0, gen(2) ? es : 8, gen(2) ? 12 : -8, e.cols[0].data()); });
                break;
            }
            case 2: {                 // more bits than there are
                int used = 0;
                for (auto& b : e.t.cols[0].bits) used += b.second;
                call("odc_encoder_column_add_bitfield", FAIL, [&] { return odc_encoder_column_add_bitfield(e.e, 0, "toomany", 33 - used + int(gen(5))); });
                break;
            }
            case 3: {                 // names that are none
                int k = int(gen(6));
                if (k == 0) call("odc_encoder_add_property", FAIL, [&] { return gen(2) ? odc_encoder_add_property(e.e, nullptr, "v") : odc_encoder_add_property(e.e, "bad", nullptr); });
                else if (k == 1) call("odc_encoder_set_row_count", FAIL, [&] { return odc_encoder_set_row_count(e.e, -1 - long(gen(5))); });
                else if (k == 2) call("odc_encoder_column_add_bitfield", FAIL, [&] { return odc_encoder_column_add_bitfield(e.e, 0, "neg", -1); });
                else if (k == 3) call("odc_encoder_set_data_array", FAIL, [&] { return odc_encoder_set_data_array(e.e, e.arr.data(), gen(2) ? e.rowBytes : -8, gen(2) ? -1 : -e.rows, 0); });
                else if (k == 4) call("odc_encoder_add_column", FAIL, [&] { return odc_encoder_add_column(e.e, nullptr, ODC_INTEGER); });
                else call("odc_encoder_column_add_bitfield", FAIL, [&] { return odc_encoder_column_add_bitfield(e.e, 0, nullptr, 0); });
                break;
            }
            case 4: {                 // nothing to encode, then as it was
                bool rows = gen(2);
                if (rows) call("odc_encoder_set_row_count", OKAY, [&] { return odc_encoder_set_row_count(e.e, 0); });
                else call("odc_encoder_set_rows_per_frame", ANY, [&] { return odc_encoder_set_rows_per_frame(e.e, 0); });
                bool ar = e.array; 
                Out o; long n;
                if (!rows || !ar) call("odc_encode_to_stream", FAIL, [&] { return odc_encode_to_stream(e.e, &o, writeCb, &n); });
                SIM_CHECK(o.got.empty(), "wrong-data", "an encoder that refuses has written something");
                if (rows) call("odc_encoder_set_row_count", OKAY, [&] { return odc_encoder_set_row_count(e.e, e.rows); });
                else { e.perFrame = 1 + long(gen(20)); call("odc_encoder_set_rows_per_frame", OKAY, [&] { return odc_encoder_set_rows_per_frame(e.e, e.perFrame); }); }
                break;
            }
            case 5: {
                std::string k = strf("k%u", gen(3)), v = strf("v%u", gen(100));
                call("odc_encoder_add_property", OKAY, [&] { return odc_encoder_add_property(e.e, k.c_str(), v.c_str()); });
                e.props[k] = v;
                break;
            }
            case 6: {                 // an array that is too small, then as it was
                if (!e.array) break;
                if (gen(2)) call("odc_encoder_set_data_array", OKAY, [&] { return odc_encoder_set_data_array(e.e, e.arr.data(), e.rowBytes - 8, e.rows, 0); });
                else call("odc_encoder_set_data_array", OKAY, [&] { return odc_encoder_set_data_array(e.e, e.arr.data(), e.rowBytes, e.rows - 1, 0); });
                Out o; long n;
                call("odc_encode_to_stream", FAIL, [&] { return odc_encode_to_stream(e.e, &o, writeCb, &n); });
                if (gen(2)) call("odc_encoder_set_data_array", FAIL, [&] { return odc_encoder_set_data_array(e.e, e.arr.data(), e.rowBytes, e.rows, 4); });
                if (gen(2)) {         // elements of other sizes than those of the columns
                    int width = 8 * (1 + int(gen(4)));
                    bool odd = false;
                    for (auto& c : e.t.cols) odd = odd || c.width * 8 % width;
                    call("odc_encoder_set_data_array", OKAY, [&] { return odc_encoder_set_data_array(e.e, e.arr.data(), e.rowBytes, e.rows, width); });
                    Out o2;
                    call("odc_encode_to_stream", odd ? FAIL : ANY, [&] { return odc_encode_to_stream(e.e, &o2, writeCb, &n); });
                }
                break;
            }
            default:
                e.perFrame = 1 + long(gen(20));
                call("odc_encoder_set_rows_per_frame", OKAY, [&] { return odc_encoder_set_rows_per_frame(e.e, e.perFrame); });
        }
    }
    void incomplete() {               // an encoder that lacks something, start to end
        odc_encoder_t* e = nullptr;
        call("odc_new_encoder", OKAY, [&] { return odc_new_encoder(&e); });
        double x[2] = {1, 2};
        Out o; long n = -7;
        int what = int(gen(4));
        if (what != 0) call("odc_encoder_add_column", ANY, [&] { return odc_encoder_add_column(e, "a", what == 1 ? (gen(2) ? 99 : -1) : ODC_DOUBLE); });
        if (what != 2) call("odc_encoder_set_row_count", OKAY, [&] { return odc_encoder_set_row_count(e, 2); });
        if (what == 1 || what == 2) call("odc_encoder_column_set_data_array", ANY, [&] { return odc_encoder_column_set_data_array(e, 0, 8, 8, x); });
        call("odc_encode_to_stream", FAIL, [&] { return odc_encode_to_stream(e, &o, writeCb, &n); });
        call("odc_free_encoder", OKAY, [&] { return odc_free_encoder(e); });
    }
    void settingsOps() {
        switch (gen(8)) {
            case 0: { int n = -7; call("odc_column_type_count", OKAY, [&] { return odc_column_type_count(&n); }); SIM_CHECK(n == 6, "wrong-data", "%d column types", n); break; }
            case 1: {
                int t = int(gen(10)) - 2;
                const char* nm = nullptr;
                static const char* names[] = {"ignore", "integer", "real", "string", "bitfield", "double"};
                int rc = call("odc_column_type_name", t >= 0 && t < 6 ? OKAY : FAIL, [&] { return odc_column_type_name(t, &nm); });
                if (!rc) SIM_CHECK(nm && std::string(nm) == names[t], "wrong-data", "column type %d is called %s", t, nm ? nm : "null");
                break;
            }
            case 2: call("odc_integer_behaviour", FAIL, [&] { return odc_integer_behaviour(gen(2) ? 0 : 3 + int(gen(3))); }); break;
            case 3: {
                long i = 0; double d = 0;
                call("odc_missing_integer", OKAY, [&] { return odc_missing_integer(&i); });
                call("odc_missing_double", OKAY, [&] { return odc_missing_double(&d); });
                SIM_CHECK(i == long(ref::INT_MDI) && d == ref::REAL_MDI, "wrong-data", "missing values %ld, %g", i, d);
                break;
            }
            case 4: call("odc_missing_integer", FAIL, [&] { return gen(2) ? odc_missing_integer(nullptr) : odc_missing_double(nullptr); }); break;
            case 5: { const char* v = nullptr; call("odc_version", OKAY, [&] { return gen(2) ? odc_version(&v) : odc_vcs_version(&v); }); SIM_CHECK(v != nullptr, "wrong-data", "no version"); break; }
            case 6: {
                handlerOn = int(gen(5)) - 1;
                int keep = handlerOn;
                call("odc_set_failure_handler", OKAY, [&] { return odc_set_failure_handler(keep >= 0 ? onFail : nullptr, keep >= 0 ? contextOf(keep) : nullptr); });
                break;
            }
            default:
                SIM_CHECK(odc_error_string(ODC_SUCCESS) && std::string(odc_error_string(ODC_SUCCESS)) != lastMsg, "message", "success is described as the last failure");
                SIM_CHECK(odc_error_string(ODC_ITERATION_COMPLETE) && std::string(odc_error_string(ODC_ITERATION_COMPLETE)) != lastMsg, "message", "the end of data is described as the last failure");
                SIM_CHECK(odc_error_string(-17) != nullptr, "message", "no text for an unknown code");
        }
    }
    void nulls() {                    // objects that are not there
        long n; int i; const char* c; const void* p; bool b; odc_frame_t* f = nullptr;
        double x[4];
        switch (gen(26)) {
            case 0: call("odc_close", FAIL, [&] { return odc_close(nullptr); }); break;
            case 1: call("odc_new_frame", FAIL, [&] { return odc_new_frame(&f, nullptr); }); break;
            case 2: call("odc_free_frame", FAIL, [&] { return odc_free_frame(nullptr); }); break;
            case 3: call("odc_next_frame", FAIL, [&] { return odc_next_frame(nullptr); }); break;
            case 4: call("odc_next_frame_aggregated", FAIL, [&] { return odc_next_frame_aggregated(nullptr, 5); }); break;
            case 5: call("odc_copy_frame", FAIL, [&] { return odc_copy_frame(nullptr, &f); }); break;
            case 6: call("odc_frame_row_count", FAIL, [&] { return odc_frame_row_count(nullptr, &n); }); break;
            case 7: call("odc_frame_column_count", FAIL, [&] { return odc_frame_column_count(nullptr, &i); }); break;
            case 8: call("odc_frame_column_attributes", FAIL, [&] { return odc_frame_column_attributes(nullptr, 0, &c, &i, &i, &i); }); break;
            case 9: call("odc_frame_properties_count", FAIL, [&] { return odc_frame_properties_count(nullptr, &i); }); break;
            case 10: call("odc_frame_property", FAIL, [&] { return odc_frame_property(nullptr, "k", &c); }); break;
            case 11: call("odc_decoder_set_row_count", FAIL, [&] { return odc_decoder_set_row_count(nullptr, 1); }); break;
            case 12: call("odc_decoder_add_column", FAIL, [&] { return odc_decoder_add_column(nullptr, "a"); }); break;
            case 13: call("odc_decoder_set_data_array", FAIL, [&] { return odc_decoder_set_data_array(nullptr, x, 8, 1, false); }); break;
            case 14: call("odc_decoder_data_array", FAIL, [&] { return odc_decoder_data_array(nullptr, &p, &n, &n, &b); }); break;
            case 15: call("odc_decode", FAIL, [&] { return odc_decode(nullptr, frs.empty() ? nullptr : frs[0].f, &n); }); break;
            case 16: call("odc_decode", FAIL, [&] { return odc_decode(des.empty() ? nullptr : des[0].d, nullptr, &n); }); break;
            case 17: call("odc_encoder_set_row_count", FAIL, [&] { return odc_encoder_set_row_count(nullptr, 1); }); break;
            case 18: call("odc_encoder_add_column", FAIL, [&] { return odc_encoder_add_column(nullptr, "a", 1); }); break;
            case 19: call("odc_encoder_add_property", FAIL, [&] { return odc_encoder_add_property(nullptr, "a", "b"); }); break;
            case 20: call("odc_encode_to_stream", FAIL, [&] { Out o; return odc_encode_to_stream(nullptr, &o, writeCb, &n); }); break;
            case 21: call("odc_encode_to_buffer", FAIL, [&] { return odc_encode_to_buffer(nullptr, x, 32, &n); }); break;
            case 22: call("odc_decoder_defaults_from_frame", FAIL, [&] { return odc_decoder_defaults_from_frame(nullptr, frs.empty() ? nullptr : frs[0].f); }); break;
            case 23: call("odc_encoder_set_data_array", FAIL, [&] { return odc_encoder_set_data_array(nullptr, x, 8, 1, 0); }); break;
            case 24: call("odc_decoder_column_count", FAIL, [&] { return odc_decoder_column_count(nullptr, &i); }); break;
            default: call("odc_frame_property_idx", FAIL, [&] { return odc_frame_property_idx(nullptr, 0, &c, &c); });
        }
    }
    void badOpen() {
        odc_reader_t* r = nullptr;
        switch (gen(4)) {
            case 0: { std::string p = "/sim/missing_" + newToken(); call("odc_open_path", FAIL, [&] { return odc_open_path(&r, p.c_str()); }, p.substr(13)); break; }
            case 1: call("odc_open_file_descriptor", FAIL, [&] { return odc_open_file_descriptor(&r, gen(2) ? -1 : 987); }); break;
            case 2: {                 // something that is not ODB data
                std::string junk(1 + gen(40), 'x');
                int rc = call("odc_open_buffer", OKAY, [&] { return odc_open_buffer(&r, junk.data(), long(junk.size())); });
                if (rc) break;
                odc_frame_t* f = nullptr;
                call("odc_new_frame", OKAY, [&] { return odc_new_frame(&f, r); });
                call("odc_next_frame", FAIL, [&] { return odc_next_frame(f); });
                call("odc_next_frame", FAIL, [&] { return odc_next_frame(f); });
                call("odc_free_frame", OKAY, [&] { return odc_free_frame(f); });
                call("odc_close", OKAY, [&] { return odc_close(r); });
                break;
            }
            default: call("odc_open_path", FAIL, [&] { return odc_open_path(&r, nullptr); });
        }
    }
};
}

SCENARIO(A01, history, 1) {
    cInit();
    settings(true);
    World w;
    handlerOn = -1; tokens = 0; trap.in = -1; lastMsg = "none yet";
    int ns = 1 + int(gen(2));
    for (int i = 0; i < ns; i++) {
        ref::GenOpts o;
        o.maxFrames = 5; o.minFrames = 0;
        if (gen(20) == 19) o.maxRows = 150;
        Src s;
        s.s = ref::genStream(o);
        s.bytes = ref::encode(s.s);
        ref::logStream("in", s.s);
        s.path = strf("/sim/in%d.odb", i);
        vfs::put(s.path, s.bytes);
        w.srcs.push_back(s);
    }
    int steps = 12 + int(gen(thorough() ? 120 : 60));
    bool faults = gen(4) != 0;
    uint64_t hist = 1469598103934665603ull;
    if (gen(4)) { handlerOn = 0; call("odc_set_failure_handler", OKAY, [&] { return odc_set_failure_handler(onFail, &ctxs[0]); }); }
    for (int n = 0; n < steps; n++) {
        int op = int(draw(SCHED, 30));
        if (op >= 28) op = 11; else if (op >= 24) op = op & 1 ? 5 : 13;
        if (w.rds.empty()) op = 0;
        hist = fnv(&op, sizeof op, hist);
        if (faults && !flt(4)) { arm(); log("a failure is due in %ld callbacks (%d)", trap.in, trap.how); }
        switch (op) {
            case 0: case 1: case 2: case 3: {          // a reader, a view on a reader
                int i = w.some(w.rds);
                if (op < 2) {
                    size_t had = w.rds.size();
                    if (had < 5) w.open();
                    if (w.rds.size() == had) break;
                    i = int(had);
                }
                if (i < 0 || !w.rds[size_t(i)].r || w.frs.size() > 12) break;
                Fr f; f.f = nullptr; f.reader = i;
                call("odc_new_frame", OKAY, [&] { return odc_new_frame(&f.f, w.rds[size_t(i)].r); });
                w.frs.push_back(f);
                break;
            }
            case 4: case 5: case 6: case 7: {
                int i = w.some(w.frs);
                if (i < 0 || !w.rds[size_t(w.frs[size_t(i)].reader)].r) break;
                Fr& f = w.frs[size_t(i)];
                if (f.dead) { if (w.rds[size_t(f.reader)].r) f.dead = false, f.has = false; }
                w.next(size_t(i));
                break;
            }
            case 8: {                  // copy
                int i = w.some(w.frs);
                if (i < 0 || w.frs.size() > 12 || w.frs[size_t(i)].dead) break;
                Fr c = w.frs[size_t(i)];
                c.f = nullptr;
                call("odc_copy_frame", OKAY, [&] { return odc_copy_frame(w.frs[size_t(i)].f, &c.f); });
                w.frs.push_back(c);
                break;
            }
            case 9: case 10: { int i = w.some(w.frs); if (i >= 0 && !w.frs[size_t(i)].dead) w.describe(w.frs[size_t(i)]); break; }
            case 11: if (w.des.size() < 6) w.newDecoder(); break;
            case 12: { int i = w.some(w.des); if (i >= 0) w.adjust(w.des[size_t(i)]); break; }
            case 13: case 14: case 15: { int i = w.some(w.des); if (i >= 0) w.decode(w.des[size_t(i)]); break; }
            case 16: if (w.ens.size() < 3) w.ens.push_back(makeEncoder()); break;
            case 17: { int i = w.some(w.ens); if (i >= 0) w.adjust(w.ens[size_t(i)]); break; }
            case 18: case 19: { int i = w.some(w.ens); if (i >= 0) w.encode(w.ens[size_t(i)]); break; }
            case 20: w.settingsOps(); break;
            case 21: if (gen(2)) w.nulls(); else if (gen(3)) w.badOpen(); else w.incomplete(); break;
            case 22: {                 // free something
                switch (gen(4)) {
                    case 0: { int i = w.some(w.frs); if (i < 0) break; call("odc_free_frame", OKAY, [&] { return odc_free_frame(w.frs[size_t(i)].f); }); w.frs.erase(w.frs.begin() + i); break; }
                    case 1: { int i = w.some(w.des); if (i < 0) break; call("odc_free_decoder", OKAY, [&] { return odc_free_decoder(w.des[size_t(i)].d); }); w.des.erase(w.des.begin() + i); break; }
                    case 2: { int i = w.some(w.ens); if (i < 0) break; call("odc_free_encoder", OKAY, [&] { return odc_free_encoder(w.ens[size_t(i)].e); }); w.ens.erase(w.ens.begin() + i); break; }
                    default: { int i = w.some(w.rds); if (i < 0 || !w.rds[size_t(i)].r) break; w.closeReader(size_t(i)); }
                }
                break;
            }
            default: disarm();
        }
        if (op == 11 && !w.des.empty() && gen(2)) w.decode(w.des.back());
        mix(vfs::faultsFired());
    }
    // everything can still be freed, and the interface still works
    if (gen(2)) disarm();
    while (!w.frs.empty()) { size_t i = gen(uint32_t(w.frs.size())); call("odc_free_frame", OKAY, [&] { return odc_free_frame(w.frs[i].f); }); w.frs.erase(w.frs.begin() + long(i)); }
    for (auto& d : w.des) call("odc_free_decoder", OKAY, [&] { return odc_free_decoder(d.d); });
    for (auto& e : w.ens) call("odc_free_encoder", OKAY, [&] { return odc_free_encoder(e.e); });
    for (size_t i = 0; i < w.rds.size(); i++) if (w.rds[i].r) w.closeReader(i);
    disarm();
    ReadPlan p;
    p.api = A_C; p.how = D_BUFFER; p.longs = true;
    if (handlerOn >= 0) odc_set_failure_handler(nullptr, nullptr);
    handlerOn = -1;
    Got g = readAll(p, w.srcs[0].bytes);
    SIM_CHECK(!g.error, "refused", "reading on fresh objects after all the failures: %s", g.what.c_str());
    std::string d = diffStream(expected(p, w.srcs[0].s), g.frames);
    SIM_CHECK(d.empty(), "wrong-data", "reading on fresh objects after all the failures: %s", d.c_str());
    state(hist);
}
