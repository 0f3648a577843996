#include "wgen.h"
#include <cfloat>
#include <cmath>
#include <cstring>
#include <limits>
#include "sched.h"
using namespace sim;
namespace wr {
using namespace ref;

std::vector<Col> genCols(const Opts& o) {
    int n = o.minCols + int(gen(uint32_t(o.maxCols - o.minCols + 1)));
    std::vector<Col> v;
    for (int i = 0; i < n; i++) {
        Col c;
        c.name = genName(i);
        if (o.simpleNames) c.name = c.name.substr(0, c.name.find('@'));
        static const int types[] = {INTEGER, REAL, DOUBLE, BITFIELD, STRING};
        c.type = types[gen(o.strings ? 5 : 4)];
        c.missing = c.type == REAL || c.type == DOUBLE ? o.rmiss : o.imiss;
        if (c.type == BITFIELD) {
            int k = gen(4);
            for (int j = 0; j < k; j++) c.bits.push_back({std::string("f") + char('a' + j), 1 + int(gen(9))});
        }
        if (c.type == STRING) { c.missing = 0; c.width = o.wide ? 1 + int(gen(4) > 2 ? gen(4) : 0) : 1; }
        v.push_back(c);
    }
    return v;
}
Col other(const Col& was, const std::vector<Col>& among, const Opts& opts, const Env& e) {
    Opts o = opts;
    o.minCols = o.maxCols = 1;
    Col c = genCols(o)[0];
    if (was.type == BITFIELD && c.type != BITFIELD) { c.type = BITFIELD; c.width = 1; c.missing = e.imiss; c.bits = {{"other", 3}}; }   // setColumn leaves a definition of bits alone
    c.name = was.name;
    if (gen(2)) for (auto& n : {"anew", "afresh@hdr", "again@body"}) {
        bool taken = false;
        for (auto& k : among) taken = taken || k.name == n;
        if (!taken) { c.name = n; break; }
    }
    if (!c.isStr()) c.missing = c.type == REAL || c.type == DOUBLE ? e.rmiss : e.imiss;
    return c;
}
std::map<std::string, std::string> genProps() {
    std::map<std::string, std::string> p;
    if (gen(3) == 2) { int n = 1 + gen(3); for (int k = 0; k < n; k++) p[std::string("key") + char('0' + gen(5))] = genString(12); }
    return p;
}
static float fromBits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static std::string anyString(int maxLen, int n) {
    std::string s;
    for (int i = 0; i < n && i < maxLen; i++) s += char(1 + gen(255));
    return s;
}
void genRows(Frame& f, int n, const Opts& o) {
    f.rows.assign(size_t(n), Row(f.cols.size()));
    for (size_t ci = 0; ci < f.cols.size(); ci++) {
        Col& c = f.cols[ci];
        int style = int(gen(8)), missStyle = int(gen(6));          // missStyle: 0..2 none, 3 some, 4 many, 5 all but one
        size_t only = n ? gen(uint32_t(n)) : 0;
        if (n > 240 && c.isStr() && gen(4)) style = 5;
        static const double widths[] = {0, 1, 2, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 2147483646.0};
        double width = widths[gen(12)], base = double(int(gen(2000)) - 1000);
        switch (gen(6)) { case 4: base = -2147483648.0; break; case 5: base = 2147483646.0 - width; break; default: break; }
        if (c.type == BITFIELD && base < 0) base = 0;
        if (base + width > 2147483646.0) width = 2147483646.0 - base;
        double rbase = double(gen(1000)) / 8 - 60, rspecial = 0;
        static const double sp[] = {FLT_MAX, -double(FLT_MAX), FLT_MIN, -double(FLT_MIN), 0.0, -0.0, HUGE_VAL, -HUGE_VAL, std::numeric_limits<double>::quiet_NaN(),
                                    DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, 1.4e-45, 1e300, -1e300, 3.4028235677973362e38, -3.4028235677973362e38, 2147483647.0, -2147483648.0, 1e-40, 16777217.0};
        rspecial = sp[gen(22)];
        int distinct = n > 240 && gen(8) ? 255 + int(gen(3)) : 1 << 30;                  // about as many strings as one byte can number
        std::string sconst = style == 7 ? std::string("\xff\xff\xff\xff\xff\xff\xff\x7f", 8) : genString(c.width * 8);
        for (int r = 0; r < n; r++) {
            Cell& v = f.rows[size_t(r)][ci];
            if (r && !(style == 5 && c.isStr() && n > 200) && gen(4) == 3) { v = f.rows[size_t(r - 1)][ci]; continue; }         // runs of equal values
            if (c.isStr()) {
                switch (style) {
                    case 0: case 7: v.s = sconst; break;
                    case 1: case 2: v.s = genString(c.width * 8); break;
                    case 3: v.s = anyString(c.width * 8, int(gen(uint32_t(c.width * 8 + 1)))); break;
                    case 4:
                        if (c.width > 1) { v.s = std::string(size_t(c.width * 8), 'p'); v.s[v.s.size() - 1 - (r & 1 ? gen(8) : 0)] = char('a' + gen(3)); if (gen(3) == 2) v.s.resize(size_t(c.width) * 8 - gen(8)); break; }   // the same but for the end
                        v.s = std::string(gen(2) ? "abcdefg" : "abcdefgh").substr(0, gen(9)); break;
                    case 5: v.s = strf("s%d", r % distinct); break;                                      // all different
                    case 6: v.s = std::string(size_t(c.width * 8), char('a' + gen(3))); break;    // no terminator
                }
                v.s = v.s.substr(0, size_t(c.width) * 8);
                continue;
            }
            bool miss = (missStyle == 3 && gen(4) == 3) || (missStyle == 4 && gen(2)) || (missStyle == 5 && size_t(r) != only);
            if (miss) { v.d = c.missing; continue; }
            if (c.type == INTEGER || c.type == BITFIELD) {
                switch (style) {
                    case 0: v.d = base; break;
                    case 1: case 2: case 3: v.d = base + (gen(2) ? width : 0); break;
                    case 4: v.d = base + floor(width * double(gen(1000)) / 999); break;
                    case 5: v.d = base + gen(4); break;
                    case 6: v.d = double(gen(0x7fffffff)); break;
                    case 7: v.d = double(int32_t(gen(0x7fffffff)) - (gen(2) ? 0x7fffffff : 0)); break;
                }
                if (c.type == BITFIELD) v.d = fabs(v.d);
                v.d = std::min(v.d, 2147483646.0);
                if (v.d == c.missing && o.imiss != INT_MDI) v.d = v.d > 0 ? v.d - 1 : v.d + 1;
                continue;
            }
            switch (style) {
                case 0: v.d = rbase; break;
                case 1: v.d = rbase + gen(3) * 0.5; break;
                case 2: v.d = double(gen(1000000)) / 7.0; break;
                case 3: v.d = ldexp(double(gen(1 << 20)), int(gen(200)) - 100); break;
                case 4: v.d = o.special ? (gen(2) ? rspecial : sp[gen(22)]) : rbase; break;
                case 5: v.d = o.special ? (gen(3) ? rbase : rspecial) : rbase; break;
                case 6: v.d = o.special ? (gen(2) ? double(fromBits(gen(2) ? 0x7f7fffff : 0xff7fffff)) : double(fromBits(0x800000))) : rbase; break;
                case 7: v.d = o.special ? rspecial : rbase; break;
            }
        }
    }
    if (n > 1 && gen(n > 240 ? 8 : 3) == 2)                                                              // rows that begin like the one before
        for (int r = 1; r < n; r++) if (gen(2)) { size_t k = gen(uint32_t(f.cols.size() + 1)); std::copy(f.rows[size_t(r - 1)].begin(), f.rows[size_t(r - 1)].begin() + long(k), f.rows[size_t(r)].begin()); }
}
Frame genTable(const Opts& o) {
    if (o.big && gen(40) == 39) {
        Opts q = o;
        q.big = false;
        if (gen(2)) { q.minCols = 250; q.maxCols = 700; q.minRows = 1; q.maxRows = 4; q.wide = false; }
        else { q.minRows = 240; q.maxRows = 700; q.maxCols = 3; }
        return genTable(q);
    }
    Frame f;
    f.cols = genCols(o);
    if (o.props) f.props = genProps();
    genRows(f, o.minRows + int(gen(uint32_t(o.maxRows - o.minRows + 1))), o);
    return f;
}
bool same(const Col& c, const Cell& in, const Cell& got) {
    if (c.isStr()) return in.s == got.s;
    if (in.d == got.d) return true;
    if (std::isnan(in.d)) return std::isnan(got.d);
    if (c.type == REAL && in.d != c.missing) return double(float(in.d)) == got.d;
    return false;
}
std::string diffCols(const std::vector<Col>& w, const std::vector<Col>& g) {
    if (w.size() != g.size()) return strf("%zu columns, want %zu", g.size(), w.size());
    for (size_t i = 0; i < w.size(); i++) {
        if (w[i].name != g[i].name) return strf("column %zu is '%s', want '%s'", i, g[i].name.c_str(), w[i].name.c_str());
        if (w[i].type != g[i].type) return strf("column %s has type %d, want %d", w[i].name.c_str(), g[i].type, w[i].type);
        if (w[i].bits != g[i].bits) return strf("column %s: bitfield differs", w[i].name.c_str());
    }
    return "";
}
std::string diffRows(const Frame& w, const Frame& g, size_t from, size_t n, size_t gfrom) {
    size_t have = g.rows.size() > gfrom ? g.rows.size() - gfrom : 0, want = w.rows.size() > from ? w.rows.size() - from : 0;
    if (n == ~size_t(0)) { n = want; if (have != want) return strf("%zu rows, want %zu", have, want); }
    if (have < n) return strf("%zu rows, want at least %zu", have, n);
    for (size_t r = 0; r < n; r++)
        for (size_t c = 0; c < w.cols.size(); c++)
            if (!same(w.cols[c], w.rows[from + r][c], g.rows[gfrom + r][c]))
                return strf("row %zu column %s (type %d, packed %s): got %s, stored %s", from + r, w.cols[c].name.c_str(), w.cols[c].type, c < g.cols.size() ? g.cols[c].codec.c_str() : "?",
                            show(w.cols[c], g.rows[gfrom + r][c]).c_str(), show(w.cols[c], w.rows[from + r][c]).c_str());
    return "";
}
Frame join(const Stream& s) {
    Frame f;
    for (auto& x : s) { if (f.cols.empty()) { f.cols = x.cols; f.props = x.props; } for (auto& r : x.rows) f.rows.push_back(r); }
    return f;
}
void put(char* at, const Col& c, const Cell& v, bool longs, bool junk) {
    if (c.isStr()) {
        size_t n = size_t(c.width) * 8;
        memset(at, junk ? 0x5a : 0, n);
        memcpy(at, v.s.data(), std::min(n, v.s.size()));
        if (v.s.size() < n) at[v.s.size()] = 0;
        return;
    }
    if (longs && (c.type == INTEGER || c.type == BITFIELD)) { int64_t i = int64_t(v.d); memcpy(at, &i, 8); }
    else memcpy(at, &v.d, 8);
}
Arrays lay(const Frame& f, int kind, bool longs) {
    Arrays a;
    a.kind = kind;
    size_t n = f.rows.size(), width = 0;
    for (auto& c : f.cols) width += size_t(c.width) * 8;
    bool junk = gen(3) == 2;
    size_t pad = kind == 2 ? 8 * (1 + gen(3)) : 0;
    if (kind != 3) {
        size_t total = n * (width + pad) - (n ? pad : 0);       // the padding of the last row is not there
        a.mem.emplace_back(new char[total ? total : 8]);
        memset(a.mem[0].get(), 0x77, total ? total : 8);
        size_t off = 0;
        for (auto& c : f.cols) {
            size_t w = size_t(c.width) * 8;
            a.at.push_back(a.mem[0].get() + off);
            a.size.push_back(w);
            if (kind == 1 || kind == 4) { a.stride.push_back(w); off += w * n; }
            else { a.stride.push_back(width + pad); off += w; }
        }
    } else
        for (auto& c : f.cols) {
            size_t w = size_t(c.width) * 8, stride = w + 8 * (gen(2) ? gen(4) : 0);
            size_t total = n ? (n - 1) * stride + w : 8;
            a.mem.emplace_back(new char[total]);
            memset(a.mem.back().get(), 0x77, total);
            a.at.push_back(a.mem.back().get());
            a.size.push_back(w);
            a.stride.push_back(stride);
        }
    for (size_t r = 0; r < n; r++)
        for (size_t c = 0; c < f.cols.size(); c++) {
            if (kind != 4) { put(const_cast<char*>(a.at[c]) + r * a.stride[c], f.cols[c], f.rows[r][c], longs, junk); continue; }
            std::string t(a.size[c], 0);                // every 8-byte word is a column of its own
            put(&t[0], f.cols[c], f.rows[r][c], longs, junk);
            for (size_t w = 0; w * 8 < t.size(); w++) memcpy(const_cast<char*>(a.at[c]) + (w * n + r) * 8, t.data() + w * 8, 8);
        }
    return a;
}
std::vector<odc::api::ConstStridedData> Arrays::strided(size_t n) const {
    std::vector<odc::api::ConstStridedData> v;
    for (size_t c = 0; c < at.size(); c++) v.push_back(odc::api::ConstStridedData(at[c], n, size[c], stride[c]));
    return v;
}
std::vector<odc::api::ColumnInfo> infos(const Frame& f) {
    std::vector<odc::api::ColumnInfo> v;
    for (auto& c : f.cols) {
        odc::api::ColumnInfo ci;
        ci.name = c.name;
        ci.type = odc::api::ColumnType(c.type);
        ci.decodedSize = size_t(c.width) * 8;
        int off = 0;
        for (auto& b : c.bits) { ci.bitfield.push_back({b.first, b.second, off}); off += b.second; }
        v.push_back(ci);
    }
    return v;
}
Env genEnv() {
    Env e;
    e.longs = gen(2);
    static const double im[] = {INT_MDI, -999, 0, -2147483648.0, 255, 1000};
    static const double rm[] = {REAL_MDI, -1e30, 0, 0.1, 1e10, -999.5};
    if (gen(3) == 2) e.imiss = im[gen(6)];
    if (gen(3) == 2) e.rmiss = rm[gen(6)];
    return e;
}
void apply(const Env& e) {
    odc::api::Settings::treatIntegersAsDoubles(!e.longs);
    odc::api::Settings::setIntegerMissingValue(long(e.imiss));
    odc::api::Settings::setDoubleMissingValue(e.rmiss);
}
}
