// R03 Damaged stored bytes are contained.
#include "harness.h"
#include <algorithm>
#include <cstring>
#include "odc/core/TablesReader.h"
#include "odc/core/Table.h"
using namespace sim;
using namespace hn;

namespace {
struct Damage { std::string bytes; std::vector<std::pair<size_t, size_t>> where; };     // [from, to) in the damaged bytes
// Bytes are changed in place; lengths and positions of everything else stay.
Damage inPlace(const std::string& in, const ref::Stream& s, int kind) {
    Damage d{in, {}};
    auto spot = [&]() -> size_t {
        auto& f = s[flt(uint32_t(s.size()))];
        switch (flt(5)) {
            case 0: return f.off + flt(uint32_t(std::min<size_t>(57, f.len)));                         // fixed part
            case 1: return f.off + flt(uint32_t(f.headerLen));                                          // header
            case 2: case 3: if (f.len > f.headerLen) return f.off + f.headerLen + flt(uint32_t(f.len - f.headerLen));   // rows
            // fall through
            default: return flt(uint32_t(in.size()));
        }
    };
    int n = 1 + int(flt(kind == 0 ? 4 : 2));
    for (int i = 0; i < n; i++) {
        size_t at = spot();
        size_t len = kind == 0 ? 1 : std::min<size_t>(1 + flt(12), in.size() - at);
        for (size_t k = at; k < at + len; k++) {
            char old = d.bytes[k];
            switch (kind) {
                case 0: d.bytes[k] = char(d.bytes[k] ^ (1 << flt(8))); break;
                case 1: d.bytes[k] = char(flt(2) ? 0xff : flt(256)); break;
                default: d.bytes[k] = in[(k * 7 + flt(64)) % in.size()]; break;
            }
            (void)old;
        }
    }
    for (size_t k = 0; k < in.size(); k++) if (d.bytes[k] != in[k]) d.where.push_back({k, k + 1});
    return d;
}
bool overlaps(const Damage& d, size_t from, size_t to) { for (auto& w : d.where) if (w.first < to && w.second > from) return true; return false; }
ref::GenOpts opts(bool sql) {
    ref::GenOpts o;
    o.big = true;
    o.maxFrames = 4;
    o.sameCols = sql;
    if (gen(12) == 11) o.maxRows = 300;
    return o;
}
}

// Frame by frame: every frame that was not touched is delivered as it was; a touched header is refused; touched rows may give
// an error or values, without disturbing anything else.
SCENARIO(R03, frames, 6) {
    eckitInit();
    settings(false);
    memFill = 0xC7;
    ref::Stream s = ref::genStream(opts(false));
    std::string bytes = ref::encode(s);
    ref::logStream("in", s);
    if (bytes.empty()) return;
    int kind = int(flt(3));
    Damage d = inPlace(bytes, s, kind);
    if (d.where.empty()) return;
    count(kind == 0 ? "bit flips" : kind == 1 ? "overwritten bytes" : "bytes copied from elsewhere");
    for (auto& w : d.where) log("damaged byte %zu: %02x -> %02x", w.first, (unsigned char)bytes[w.first], (unsigned char)d.bytes[w.first]);
    State st = std::make_shared<HandleState>();
    st->data = d.bytes;
    st->plan.estimate = gen(3) != 2;
    if (gen(2)) st->plan.chunk = 1 + int(gen(60));
    bool longs = gen(4) == 3;
    settings(longs);
    size_t i = 0;
    std::string what;
    bool ended = false, refused = false;
    std::unique_ptr<odc::api::Reader> r;
    if (!guarded([&] { r.reset(new odc::api::Reader(new SimHandle(st), false)); }, what)) refused = true;
    for (; !refused; i++) {
        step();
        odc::api::Frame f;
        bool ok = guarded([&] { f = r->next(); }, what);
        if (!ok) { refused = true; break; }
        if (!f) { ended = true; break; }
        SIM_CHECK(i < s.size() || !d.where.empty(), "more-frames", "%zu frames", i);
        if (i >= s.size()) continue;
        auto& o = s[i];
        bool header = overlaps(d, o.off + 9, o.off + o.headerLen);
        if (header) {
            // the damaged part may be the unchecked version or byte order words
            bool covered = overlaps(d, o.off + 21 + 4, o.off + o.headerLen);
            SIM_CHECK(!covered, "damaged-header-accepted", "frame %zu was accepted although its header changed", i);
        }
        bool fixedPart = overlaps(d, o.off, o.off + 57);
        ref::Frame x;
        bool dec = guarded([&] { x = decodeFrame(f, 1, int(gen(3)), longs); }, what);
        if (overlaps(d, o.off + o.headerLen, o.off + o.len) || fixedPart) { log("frame %zu: rows damaged, %s", i, dec ? "decoded" : what.c_str()); continue; }
        SIM_CHECK(dec, "untouched-frame-refused", "frame %zu was not touched, decoding fails: %s", i, what.c_str());
        std::string df = diffFrame(o, x);
        SIM_CHECK(df.empty(), "untouched-frame-differs", "frame %zu was not touched: %s", i, df.c_str());
    }
    if (refused) log("refused at frame %zu: %s", i, what.c_str());
    if (refused) {
        SIM_CHECK(i < s.size(), "refused-at-end", "all frames delivered, then: %s", what.c_str());
        SIM_CHECK(overlaps(d, s[i].off, s[i].off + s[i].headerLen), "untouched-frame-refused", "the header of frame %zu was not touched: %s", i, what.c_str());
    }
    if (ended) SIM_CHECK(i == s.size(), "short", "%zu of %zu frames, then a normal end", i, s.size());
    std::string sig = strf("%d %d %d %zu", kind, int(refused), int(ended), i);
    for (auto& w : d.where) for (auto& f : s) if (w.first >= f.off && w.first < f.off + f.len) sig += strf(" %zu", w.first < f.off + f.headerLen ? std::min<size_t>(w.first - f.off, 120) : 1000 + (w.first - f.off - f.headerLen) % 40);
    state(fnv(sig.data(), sig.size()));
}

// Any interface, any damage, including pieces cut out, repeated or moved: it ends, in bounds, with data or an error.
SCENARIO(R03, anyhow, 6) {
    ReadPlan p;
    drawDelivery(p);
    p.plan.seekable = p.how != D_STREAM;
    p.damaged = true;
    eckitInit();
    cInit();
    p.longs = gen(4) == 3 && p.api != A_SQL && p.api != A_ROWS;
    settings(p.longs);
    memFill = uint8_t(gen(2) ? 0xC7 : 0);
    ref::Stream s = ref::genStream(opts(p.api == A_SQL));
    std::string bytes = ref::encode(s);
    ref::logStream("in", s);
    if (bytes.empty()) return;
    std::string x = bytes;
    int n = 1 + int(flt(2));
    for (int k = 0; k < n && !x.empty(); k++) {
        int kind = int(flt(6));
        size_t a = flt(uint32_t(x.size())), l = std::min<size_t>(1 + flt(flt(2) ? 16 : 200), x.size() - a);
        switch (kind) {
            case 0: case 1: x = inPlace(x, s, kind).bytes; count("bytes changed in place"); break;
            case 2: x.erase(a, l); count("piece cut out"); break;
            case 3: x.insert(a, x.substr(a, l)); count("piece repeated"); break;
            case 4: { std::string t = x.substr(a, l); x.erase(a, l); x.insert(flt(uint32_t(x.size()) + 1), t); count("piece moved"); break; }
            default: x.insert(a, std::string(l, char(flt(256)))); count("piece inserted"); break;
        }
        if (x.size() > bytes.size() + 4096) x.resize(bytes.size() + 4096);
        // keep inPlace within bounds
        if (x.size() < bytes.size()) x.resize(bytes.size(), 0);
    }
    log("%s; %zu bytes, first change at %zu", p.describe().c_str(), x.size(), size_t(std::mismatch(x.begin(), x.begin() + std::min(x.size(), bytes.size()), bytes.begin()).first - x.begin()));
    Got g = readAll(p, x);
    log("read %zu frames error=%d %s", g.frames.size(), g.error, g.what.c_str());
    // frames wholly before the first change are what they were
    size_t first = size_t(std::mismatch(x.begin(), x.begin() + std::min(x.size(), bytes.size()), bytes.begin()).first - x.begin());
    if (!aggregated(p.api) && p.api != A_SQL && p.api != A_ROWS) {
        ref::Stream before;
        for (auto& f : s) if (f.off + f.len <= first) before.push_back(f);
        SIM_CHECK(g.frames.size() >= before.size(), "short", "%zu frames lie before the damage, %zu delivered: %s", before.size(), g.frames.size(), g.what.c_str());
        ref::Stream head(g.frames.begin(), g.frames.begin() + long(before.size()));
        std::string df = diffStream(before, head);
        SIM_CHECK(df.empty(), "untouched-frame-differs", "%s", df.c_str());
    }
    std::string sig = strf("%s %zu e%d %s", p.describe().c_str(), g.frames.size(), int(g.error), g.what.substr(0, 40).c_str());
    state(fnv(sig.data(), sig.size()));
}

// Damaged rows never pick up whatever happens to be in memory: the same damaged bytes read twice give the same.
SCENARIO(R03, repeatable, 3) {
    ReadPlan p;
    drawDelivery(p);
    p.plan.seekable = p.how != D_STREAM;
    if (p.plan.chunk < 0) p.plan.chunk = 7;
    eckitInit();
    cInit();
    settings(false);
    ref::Stream s = ref::genStream(opts(p.api == A_SQL));
    std::string bytes = ref::encode(s);
    ref::logStream("in", s);
    if (bytes.empty()) return;
    Damage d = inPlace(bytes, s, int(flt(3)));
    for (auto& w : d.where) log("damaged byte %zu: %02x -> %02x", w.first, (unsigned char)bytes[w.first], (unsigned char)d.bytes[w.first]);
    count("same damage read twice");
    memFill = 0x11;
    Got a = readAll(p, d.bytes);
    memFill = 0xEE;
    Got b = readAll(p, d.bytes);
    log("%s; read %zu frames error=%d %s", p.describe().c_str(), a.frames.size(), a.error, a.what.c_str());
    SIM_CHECK(a.error == b.error, "unrepeatable", "%s: the same damaged bytes give '%s' and '%s'", p.describe().c_str(), a.what.c_str(), b.what.c_str());
    std::string df = p.api == A_SQL || p.api == A_ROWS ? diffRows(a.frames, b.frames) : diffStream(a.frames, b.frames);
    SIM_CHECK(df.empty(), "unrepeatable", "%s: the same damaged bytes give different data: %s", p.describe().c_str(), df.c_str());
    std::string sig = strf("%s %zu e%d %s", p.describe().c_str(), a.frames.size(), int(a.error), a.what.substr(0, 40).c_str());
    state(fnv(sig.data(), sig.size()));
}

// A header whose content is damaged but whose digest was made to match: every length, count, name and index in it may be wrong.
SCENARIO(R03, crafted, 5) {
    ReadPlan p;
    drawDelivery(p);
    p.plan.seekable = p.how != D_STREAM;
    p.damaged = true;
    eckitInit();
    cInit();
    p.longs = gen(4) == 3 && p.api != A_SQL && p.api != A_ROWS;
    settings(p.longs);
    memFill = uint8_t(gen(2) ? 0xC7 : 0);
    ref::Stream s = ref::genStream(opts(p.api == A_SQL));
    std::string bytes = ref::encode(s);
    ref::logStream("in", s);
    if (bytes.empty()) return;
    auto& f = s[flt(uint32_t(s.size()))];
    std::string x = bytes;
    size_t h = f.off + 57, e = f.off + f.headerLen;
    int n = 1 + int(flt(3));
    for (int k = 0; k < n; k++) {
        size_t at = h + flt(uint32_t(e - h));
        switch (flt(4)) {
            case 0: x[at] = char(x[at] ^ (1 << flt(8))); log("header byte %zu: bit flipped to %02x", at - h, (unsigned char)x[at]); break;
            case 1: {       // a word of the header
                static const int32_t v[] = {0, 1, -1, 2, 7, 255, 65536, 0x7fffffff, int32_t(0x80000000)};
                int32_t w = v[flt(9)];
                if (at + 4 > e) break;
                if (f.swap) w = int32_t(__builtin_bswap32(uint32_t(w)));
                memcpy(&x[at], &w, 4);
                log("header word at %zu: %d", at - h, w);
                break;
            }
            case 2: {       // the size, row and flag words, and the column count
                size_t spot = h + 8 * flt(4);
                int64_t w = int64_t(flt(3)) - 1;
                if (flt(2)) w = int64_t(flt(60000)) - 100;
                if (flt(4) == 0) w = flt(2) ? INT64_MAX : INT64_MIN;
                if (spot + 8 > e) break;
                if (f.swap) w = int64_t(__builtin_bswap64(uint64_t(w)));
                memcpy(&x[spot], &w, 8);
                log("header long at %zu", spot - h);
                break;
            }
            default: x[at] = char(flt(256)); log("header byte %zu: %02x", at - h, (unsigned char)x[at]); break;
        }
    }
    std::string dig = ref::md5hex(x.data() + h, e - h);
    x.replace(f.off + 21, 32, dig);
    count("header altered with a matching digest");
    Got g = readAll(p, x);
    log("%s; read %zu frames error=%d %s", p.describe().c_str(), g.frames.size(), g.error, g.what.c_str());
    std::string sig = strf("%s %zu e%d %s", p.describe().c_str(), g.frames.size(), int(g.error), g.what.substr(0, 60).c_str());
    state(fnv(sig.data(), sig.size()));
}
