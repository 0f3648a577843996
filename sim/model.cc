#include "model.h"
#include <math.h>
#include <string.h>
#include <algorithm>
#include <set>

namespace ref {
using sim::gen;
using sim::GEN;

const char* typeName(int t) {
    static const char* n[] = {"ignore", "integer", "real", "string", "bitfield", "double"};
    return t >= 0 && t < 6 ? n[t] : "?";
}
bool Cell::operator==(const Cell& o) const { return s == o.s && memcmp(&d, &o.d, 8) == 0; }

// ------------------------------------------------------------------ md5
namespace {
struct Md5 {
    uint32_t a = 0x67452301, b = 0xefcdab89, c = 0x98badcfe, d = 0x10325476;
    static uint32_t rot(uint32_t x, int k) { return (x << k) | (x >> (32 - k)); }
    void block(const uint8_t* p) {
        static const int r[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
        static uint32_t K[64];
        if (!K[0]) for (int i = 0; i < 64; i++) K[i] = uint32_t(floor(fabs(sin(i + 1.0)) * 4294967296.0));
        uint32_t w[16];
        memcpy(w, p, 64);
        uint32_t A = a, B = b, C = c, D = d;
        for (int i = 0; i < 64; i++) {
            uint32_t f; int g;
            if (i < 16) { f = (B & C) | (~B & D); g = i; }
            else if (i < 32) { f = (D & B) | (~D & C); g = (5 * i + 1) & 15; }
            else if (i < 48) { f = B ^ C ^ D; g = (3 * i + 5) & 15; }
            else { f = C ^ (B | ~D); g = (7 * i) & 15; }
            uint32_t t = D; D = C; C = B; B = B + rot(A + f + K[i] + w[g], r[i]); A = t;
        }
        a += A; b += B; c += C; d += D;
    }
};
}
std::string md5hex(const void* p, size_t n) {
    std::string m((const char*)p, n);
    m += char(0x80);
    while (m.size() % 64 != 56) m += char(0);
    uint64_t bits = uint64_t(n) * 8;
    m.append((const char*)&bits, 8);
    Md5 h;
    for (size_t i = 0; i < m.size(); i += 64) h.block((const uint8_t*)m.data() + i);
    uint32_t v[4] = {h.a, h.b, h.c, h.d};
    std::string o;
    char t[4];
    for (int i = 0; i < 16; i++) { snprintf(t, sizeof t, "%02x", ((uint8_t*)v)[i]); o += t; }
    return o;
}

// ------------------------------------------------------------------ encoder
namespace {
struct Out {
    std::string b;
    bool sw;
    template <class V> void num(V v) {
        char t[sizeof(V)];
        memcpy(t, &v, sizeof v);
        if (sw) std::reverse(t, t + sizeof v);
        b.append(t, sizeof v);
    }
    void i32(int32_t v) { num(v); }
    void i64(int64_t v) { num(v); }
    void f64(double v) { num(v); }
    void str(const std::string& s) { i32(int32_t(s.size())); b += s; }
    void raw(const std::string& s) { b += s; }
};
std::string pad(const std::string& s, size_t n) { std::string r = s.substr(0, n); r.resize(n, 0); return r; }
void putValue(Out& o, const Col& c, const Cell& v) {
    const std::string& k = c.codec;
    if (k == "constant" || k == "constant_string" || k == "long_constant_string") return;
    if (k == "int8") o.num(uint8_t(int64_t(v.d - c.mn)));
    else if (k == "int16") o.num(uint16_t(int64_t(v.d - c.mn)));
    else if (k == "int32") o.num(int32_t(v.d));
    else if (k == "int8_missing") o.num(v.d == c.missing ? uint8_t(0xff) : uint8_t(int64_t(v.d - c.mn)));
    else if (k == "int16_missing") o.num(v.d == c.missing ? uint16_t(0xffff) : uint16_t(int64_t(v.d - c.mn)));
    else if (k == "constant_or_missing" || k == "real_constant_or_missing") o.num(v.d == c.missing ? uint8_t(0xff) : uint8_t(0));
    else if (k == "short_real" || k == "short_real2") {
        uint32_t m = k == "short_real" ? 0x00800000u : 0xff7fffffu;
        if (v.d == c.missing) o.num(m);
        else o.num(float(v.d));
    }
    else if (k == "long_real") o.num(v.d);
    else if (k == "chars") o.raw(pad(v.s, size_t(c.width) * 8));
    else if (k == "int8_string" || k == "int16_string") {
        size_t i = std::find(c.table.begin(), c.table.end(), v.s) - c.table.begin();
        if (i == c.table.size()) sim::harnessError("string not in table");
        if (k == "int8_string") o.num(uint8_t(i)); else o.num(uint16_t(i));
    }
    else sim::harnessError("no codec %s", k.c_str());
}
}

std::string encode(Frame& f) {
    Out data{"", f.swap};
    for (size_t r = 0; r < f.rows.size(); r++) {
        size_t st = 0;
        if (r > 0) {
            while (st < f.cols.size() && f.rows[r][st] == f.rows[r - 1][st]) st++;
            // any start column up to the first change is legal; the writer uses the last legal one
            if (st > 0 && sim::chance(GEN, 1, 4)) st = gen(uint32_t(st) + 1);
        }
        data.b += char(st / 256);
        data.b += char(st % 256);
        for (size_t c = st; c < f.cols.size(); c++) putValue(data, f.cols[c], f.rows[r][c]);
    }
    Out h{"", f.swap};
    h.i64(int64_t(data.b.size()));
    h.i64(0);
    h.i64(int64_t(f.rows.size()));
    h.i32(0);                                   // flags
    h.i32(int32_t(f.props.size()));
    for (auto& p : f.props) { h.str(p.first); h.str(p.second); }
    h.i32(int32_t(f.cols.size()));
    for (auto& c : f.cols) {
        h.str(c.name);
        h.i32(c.type);
        if (c.type == BITFIELD) {
            h.i32(int32_t(c.bits.size()));
            for (auto& b : c.bits) h.str(b.first);
            h.i32(int32_t(c.bits.size()));
            for (auto& b : c.bits) h.i32(b.second);
        }
        h.str(c.codec);
        h.i32(c.hasMissing);
        if (c.codec == "constant_string") {
            std::string s = pad(f.rows.empty() ? std::string() : f.rows[0][&c - &f.cols[0]].s, 8);
            h.raw(s); h.raw(s);
            h.f64(c.missing);
        } else {
            h.f64(c.mn); h.f64(c.mx); h.f64(c.missing);
        }
        if (c.codec == "chars") h.i32(0);
        else if (c.codec == "int8_string" || c.codec == "int16_string") {
            h.i32(int32_t(c.table.size()));
            for (size_t i = 0; i < c.table.size(); i++) { h.str(c.table[i]); h.i32(0); h.i32(int32_t(i)); }
        }
        else if (c.codec == "long_constant_string") h.str(c.table[0]);
    }
    Out o{"", f.swap};
    o.raw(std::string("\xff\xffODA", 5));
    o.i32(1);
    o.i32(0);
    o.i32(f.minor);
    o.str(md5hex(h.b.data(), h.b.size()));
    o.i32(int32_t(h.b.size()));
    o.raw(h.b);
    f.headerLen = o.b.size();
    o.raw(data.b);
    f.len = o.b.size();
    return o.b;
}
std::string encode(Stream& s) {
    std::string b;
    for (auto& f : s) { f.off = b.size(); b += encode(f); }
    return b;
}

// ------------------------------------------------------------------ decoder
namespace {
struct Bad { std::string what; };
struct In {
    const uint8_t* p; size_t n, at = 0; bool sw = false;
    void need(size_t k) { if (k > n - at) throw Bad{"truncated"}; }
    template <class V> V num() { need(sizeof(V)); char t[sizeof(V)]; memcpy(t, p + at, sizeof(V)); at += sizeof(V); if (sw) std::reverse(t, t + sizeof(V)); V v; memcpy(&v, t, sizeof v); return v; }
    std::string raw(size_t k) { need(k); std::string s((const char*)p + at, k); at += k; return s; }
    std::string str() { int32_t k = num<int32_t>(); if (k < 0) throw Bad{"negative length"}; return raw(k); }
};
std::string trim(const std::string& s) { return std::string(s.c_str()); }

Cell getValue(In& in, const Col& c) {
    const std::string& k = c.codec;
    Cell v;
    if (k == "constant") { v.d = c.mn; return v; }
    if (k == "constant_string") { char t[8]; memcpy(t, &c.mn, 8); v.s = trim(std::string(t, 8)); return v; }
    if (k == "long_constant_string") { v.s = trim(c.table.at(0)); return v; }
    if (k == "int8") v.d = in.num<uint8_t>() + c.mn;
    else if (k == "int16") v.d = in.num<uint16_t>() + c.mn;
    else if (k == "int32") v.d = in.num<int32_t>();
    else if (k == "int8_missing" || k == "constant_or_missing" || k == "real_constant_or_missing") { uint8_t s = in.num<uint8_t>(); v.d = s == 0xff ? c.missing : s + c.mn; }
    else if (k == "int16_missing") { uint16_t s = in.num<uint16_t>(); v.d = s == 0xffff ? c.missing : s + c.mn; }
    else if (k == "short_real" || k == "short_real2") {
        float s = in.num<float>(); uint32_t b; memcpy(&b, &s, 4);
        v.d = b == (k == "short_real" ? 0x00800000u : 0xff7fffffu) ? c.missing : double(s);
    }
    else if (k == "long_real") v.d = in.num<double>();
    else if (k == "chars") v.s = trim(in.raw(size_t(c.width) * 8));
    else if (k == "int8_string") { size_t i = in.num<uint8_t>(); if (i >= c.table.size()) throw Bad{"string index"}; v.s = trim(c.table[i]); }
    else if (k == "int16_string") { size_t i = in.num<uint16_t>(); if (i >= c.table.size()) throw Bad{"string index"}; v.s = trim(c.table[i]); }
    else throw Bad{"unknown codec " + k};
    return v;
}
}
Decoded decode(const std::string& bytes) {
    Decoded D;
    In in{(const uint8_t*)bytes.data(), bytes.size()};
    try {
        while (in.at < in.n) {
            Frame f;
            f.off = in.at;
            in.sw = false;
            if (in.raw(5) != std::string("\xff\xffODA", 5)) throw Bad{"magic"};
            int32_t bo = in.num<int32_t>();
            if (bo == 0x01000000) in.sw = true; else if (bo != 1) throw Bad{"byte order"};
            f.swap = in.sw;
            if (in.num<int32_t>() != 0) throw Bad{"major"};
            f.minor = in.num<int32_t>();
            std::string digest = in.str();
            int32_t hs = in.num<int32_t>();
            if (hs < 0) throw Bad{"header size"};
            size_t h0 = in.at;
            in.need(hs);
            if (md5hex(bytes.data() + h0, hs) != digest) throw Bad{"digest"};
            int64_t dsz = in.num<int64_t>();
            in.num<int64_t>();
            int64_t nrows = in.num<int64_t>();
            int32_t nf = in.num<int32_t>();
            for (int i = 0; i < nf; i++) in.num<double>();
            int32_t np = in.num<int32_t>();
            for (int i = 0; i < np; i++) { std::string k = in.str(); f.props[k] = in.str(); }
            int32_t nc = in.num<int32_t>();
            for (int i = 0; i < nc; i++) {
                Col c;
                c.name = in.str();
                c.type = in.num<int32_t>();
                if (c.type == BITFIELD) {
                    int32_t n = in.num<int32_t>();
                    for (int k = 0; k < n; k++) c.bits.push_back({in.str(), 0});
                    int32_t m = in.num<int32_t>();
                    if (m != n) throw Bad{"bitfield"};
                    for (int k = 0; k < n; k++) c.bits[k].second = in.num<int32_t>();
                }
                c.codec = in.str();
                c.hasMissing = in.num<int32_t>();
                if (c.codec == "constant_string") { std::string a = in.raw(8); memcpy(&c.mn, a.data(), 8); a = in.raw(8); memcpy(&c.mx, a.data(), 8); c.missing = in.num<double>(); }
                else { c.mn = in.num<double>(); c.mx = in.num<double>(); c.missing = in.num<double>(); }
                if (c.codec == "chars") in.num<int32_t>();
                else if (c.codec == "int8_string" || c.codec == "int16_string") {
                    int32_t n = in.num<int32_t>();
                    if (n < 0) throw Bad{"strings"};
                    c.table.resize(n);
                    size_t ml = 1;
                    for (int k = 0; k < n; k++) {
                        std::string s = in.str();
                        in.num<int32_t>();
                        int32_t ix = in.num<int32_t>();
                        if (ix < 0 || ix >= n) throw Bad{"string index"};
                        c.table[ix] = s;
                        ml = std::max(ml, s.size());
                    }
                    c.width = int((ml + 7) / 8);
                }
                else if (c.codec == "long_constant_string") { c.table.push_back(in.str()); c.width = int((std::max<size_t>(1, c.table[0].size()) + 7) / 8); }
                f.cols.push_back(c);
            }
            if (in.at != h0 + hs) throw Bad{"header length"};
            f.headerLen = in.at - f.off;
            in.need(dsz);
            size_t end = in.at + dsz;
            Row prev(f.cols.size());
            for (size_t i = 0; i < f.cols.size(); i++) prev[i].d = f.cols[i].missing;
            for (int64_t r = 0; r < nrows; r++) {
                std::string m = in.raw(2);
                size_t st = uint8_t(m[0]) * 256 + uint8_t(m[1]);
                if (st > f.cols.size()) throw Bad{"row marker"};
                for (size_t c = st; c < f.cols.size(); c++) prev[c] = getValue(in, f.cols[c]);
                for (size_t c = 0; c < f.cols.size(); c++) if (f.cols[c].isStr()) prev[c].d = 0;
                f.rows.push_back(prev);
            }
            if (in.at != end) throw Bad{"data size"};
            f.len = in.at - f.off;
            D.frames.push_back(f);
            D.clean = in.at;
        }
    } catch (Bad& b) { D.ok = false; D.error = b.what; }
    return D;
}

// ------------------------------------------------------------------ generators
std::string genName(int i) {
    static const char* base[] = {"a", "lat", "obsvalue", "expver", "x", "seqno", "date", "k", "zz", "w1", "w2", "w3", "w4", "w5"};
    static const char* tab[] = {"", "@hdr", "@body"};
    std::string n = base[i % 14];
    if (i >= 14) n += std::to_string(i);
    return n + tab[gen(3)];
}
std::string genString(int maxLen) {
    static const char al[] = "aAbz09 _-.~";
    int n = gen(maxLen + 1);
    std::string s;
    for (int i = 0; i < n; i++) s += al[gen(11)];
    return s;
}
static void ownMissing(Col& c) {
    static const double ints[] = {-999, 0, 7, 2147483646, -2147483648.0, -1}, reals[] = {-999, 100, 1e30, -1.5, 0.1, 3};
    if (c.type == STRING) return;
    c.missing = c.type == REAL || c.type == DOUBLE ? reals[gen(6)] : ints[gen(6)];
}
std::vector<Col> genColumns(const GenOpts& o) {
    int n = o.minCols + gen(o.maxCols - o.minCols + 1);
    std::vector<Col> v;
    for (int i = 0; i < n; i++) {
        Col c;
        c.name = genName(i);
        static const int types[] = {INTEGER, REAL, DOUBLE, BITFIELD, STRING};
        c.type = o.texty && gen(2) ? int(STRING) : types[gen(o.strings ? 5 : 4)];
        c.missing = c.type == REAL || c.type == DOUBLE ? REAL_MDI : INT_MDI;
        if (o.missings && gen(8) == 7) ownMissing(c);
        if (c.type == BITFIELD) {
            int k = gen(4);
            for (int j = 0; j < k; j++) c.bits.push_back({std::string("f") + char('a' + j), 1 + int(gen(9))});
        }
        if (c.type == STRING) {
            c.missing = 0;
            c.width = o.wide ? 1 + int(gen(10) > (o.texty ? 2 : 6) ? gen(3) : 0) : 1;
        }
        v.push_back(c);
    }
    return v;
}
// A column has a "palette" style so that constant columns, small ranges and repeats occur.
static Cell genCell(const Col& c, int style, double base) {
    Cell v;
    if (c.type == STRING) {
        static const char* few[] = {"", "a", "bb", "station1", "12345678"};
        if (style >= 16) v.s = std::to_string(gen(style > 16 ? 300 : 100000));
        else if (style <= 2) v.s = few[gen(style == 0 ? 1 : 5)];
        else if (style == 4 && c.width > 1) { v.s = std::string(size_t(c.width) * 8 - gen(7), 'p'); v.s.back() = char('a' + gen(3)); }   // the same but for the end
        else v.s = genString(c.width * 8);
        if (v.s.empty() && style == 0) v.s = "const";
        v.s = v.s.substr(0, c.width * 8);
        return v;
    }
    bool miss = style & 8;
    style &= 7;
    if (miss && gen(3) == 2) { v.d = c.missing; return v; }
    if (c.type == INTEGER || c.type == BITFIELD) {
        switch (style) {
            case 0: v.d = base; break;
            case 1: v.d = base + gen(4); break;
            case 2: v.d = base + gen(255); break;
            case 3: v.d = base + gen(60000); break;
            default: v.d = double(int32_t(gen(0x7fffffff)) - (gen(2) ? 0x40000000 : 0));
        }
        if (v.d >= INT_MDI) v.d = INT_MDI - 1;
        return v;
    }
    switch (style) {
        case 0: v.d = base; break;
        case 1: v.d = base + gen(3) * 0.5; break;
        case 2: v.d = double(gen(100000)) / 64 - 500; break;
        case 3: v.d = ldexp(double(gen(1 << 20)), int(gen(100)) - 50); break;
        default: v.d = c.type == DOUBLE ? double(gen(1000000)) / 7.0 : double(float(double(gen(1000000)) / 7.0));
    }
    if (c.type == REAL) v.d = double(float(v.d));
    if (gen(40) == 39) v.d = -0.0;
    return v;
}
Cell genValue(const Col& c) {
    if (c.type == STRING) return genCell(c, gen(4), 0);
    return genCell(c, int(gen(5)) | (gen(2) ? 8 : 0), double(gen(100)) - 50);
}
static void genRows(Frame& f, int n, bool texty) {
    std::vector<int> style;
    std::vector<double> base;
    for (auto& c : f.cols) {
        style.push_back(n > 200 && c.type == STRING && gen(2) ? 16 + int(gen(2)) : int(gen(5)) | (c.type != STRING && gen(3) == 2 ? 8 : 0));
        if (texty && c.width > 1 && gen(2)) style.back() = 3 + int(gen(2));
        double b = double(gen(2000)) - 1000;
        if (c.type == REAL || c.type == DOUBLE) b = b / 8;
        base.push_back(b);
    }
    int repeat = gen(4);      // how strongly rows repeat earlier columns
    for (int r = 0; r < n; r++) {
        Row row;
        size_t keep = r && repeat ? gen(uint32_t(f.cols.size()) + 1) : 0;
        if (repeat == 1 && gen(2)) keep = 0;
        for (size_t c = 0; c < f.cols.size(); c++) {
            if (c < keep) row.push_back(f.rows[r - 1][c]);
            else row.push_back(genCell(f.cols[c], style[c], base[c]));
        }
        f.rows.push_back(row);
    }
}
void chooseCodecs(Frame& f, bool writerLike) {
    for (size_t i = 0; i < f.cols.size(); i++) {
        Col& c = f.cols[i];
        c.table.clear();
        if (c.type == STRING) {
            std::set<std::string> u;
            size_t ml = 1;
            for (auto& r : f.rows) { u.insert(r[i].s); ml = std::max(ml, r[i].s.size()); }
            int need = int((ml + 7) / 8);
            std::vector<std::string> opt{"chars"};
            if (u.size() == 1 && ml <= 8) opt.push_back("constant_string");
            if (u.size() == 1 && ml > 8) opt.push_back("long_constant_string");
            if (u.size() < 255) opt.push_back("int8_string");
            opt.push_back("int16_string");
            c.codec = opt[gen(uint32_t(opt.size()))];
            if (c.codec == "chars") { c.width = 1; for (auto& r : f.rows) r[i].s.resize(std::min<size_t>(8, r[i].s.size())); }
            else if (c.codec == "constant_string") c.width = 1;
            else c.width = need;
            c.mn = c.mx = c.missing = 0;
            if (c.codec == "int8_string" || c.codec == "int16_string" || c.codec == "long_constant_string") {
                if (c.codec[0] == 'i' && gen(4) == 3) c.table.push_back("unused");
                for (auto& r : f.rows) if (std::find(c.table.begin(), c.table.end(), r[i].s) == c.table.end()) c.table.push_back(r[i].s);
                if (c.table.empty()) c.table.push_back("");
                size_t m = 1;
                for (auto& s : c.table) m = std::max(m, s.size());
                c.width = int((m + 7) / 8);
                c.mn = c.mx = c.missing = INT_MDI;
            }
            c.hasMissing = 0;
            continue;
        }
        bool miss = false, any = false;
        double mn = 0, mx = 0;
        for (auto& r : f.rows) {
            if (r[i].d == c.missing) { miss = true; continue; }
            if (!any || r[i].d < mn) mn = r[i].d;
            if (!any || r[i].d > mx) mx = r[i].d;
            any = true;
        }
        if (!any) mn = mx = c.missing;
        c.hasMissing = miss;
        c.mn = mn; c.mx = mx;
        std::vector<std::string> opt;
        if (c.type == INTEGER || c.type == BITFIELD) {
            opt.push_back("int32");
            double n = mx - mn;
            if (!miss || !any) { if (n <= 255) opt.push_back("int8"); if (n <= 65535) opt.push_back("int16"); if (n == 0) { opt.push_back("constant"); opt.push_back("constant"); } }
            if (n < 255) opt.push_back("int8_missing");
            if (n < 65535) opt.push_back("int16_missing");
            if (n == 0) opt.push_back("constant_or_missing");
        } else {
            opt.push_back("long_real");
            bool fl = true;
            for (auto& r : f.rows) if (r[i].d != c.missing && double(float(r[i].d)) != r[i].d) fl = false;
            if (c.type == REAL && fl) { opt.push_back("short_real"); opt.push_back("short_real2"); opt.push_back("short_real2"); }
            bool bitsame = true;
            for (auto& r : f.rows) if (memcmp(&r[i].d, &f.rows[0][i].d, 8)) bitsame = false;
            if (bitsame && mn == mx) opt.push_back("constant");
            bool c2 = any && mn == mx;
            for (auto& r : f.rows) if (r[i].d != c.missing && memcmp(&r[i].d, &mn, 8)) c2 = false;
            if (mn == 0) { c2 = false; }        // -0.0 + 0 loses its sign: keep zero out of the additive codec
            if (c2) opt.push_back("real_constant_or_missing");
        }
        c.codec = opt[gen(uint32_t(opt.size()))];
    }
}
Stream genStream(const GenOpts& o) {
    Stream s;
    if (o.big && gen(40) == 39) {
        GenOpts q = o;
        q.big = false;
        q.maxFrames = std::max(q.minFrames, 2);
        if (gen(2)) { q.minCols = 250; q.maxCols = 700; q.maxRows = std::max(q.minRows, 4); q.wide = false; }
        else { q.maxCols = 3; q.minRows = 240; q.maxRows = 700; }
        return genStream(q);
    }
    int nf = o.minFrames + gen(o.maxFrames - o.minFrames + 1);
    for (int i = 0; i < nf; i++) {
        Frame f;
        if (i && (o.sameCols || int(gen(100)) < o.compatibleBias)) f.cols = s.back().cols;
        else if (i && gen(2)) {           // related columns: reordered, retyped, one dropped or added
            f.cols = s.back().cols;
            switch (gen(4)) {
                case 0: std::swap(f.cols[0], f.cols[gen(uint32_t(f.cols.size()))]); break;
                case 1: if (f.cols.size() > 1) f.cols.erase(f.cols.begin() + gen(uint32_t(f.cols.size()))); break;
                case 2: { Col c; c.name = "added"; bool dup = false; for (auto& k : f.cols) dup |= k.name == c.name; if (!dup) f.cols.insert(f.cols.begin() + gen(uint32_t(f.cols.size()) + 1), c); break; }
                case 3: { Col& c = f.cols[gen(uint32_t(f.cols.size()))]; if (c.type == STRING) c.width = o.wide ? 1 + gen(3) : 1; else if (c.type == INTEGER) { c.type = DOUBLE; c.missing = REAL_MDI; } else if (c.type == REAL) c.type = DOUBLE; break; }
            }
        }
        else f.cols = genColumns(o);
        if (i && o.wide && o.widen && gen(o.texty ? 3 : 8) == 2) for (auto& c : f.cols) if (c.type == STRING && gen(4)) c.width = 1 + int(gen(3));
        if (i && o.missings > 1 && gen(8) == 7) ownMissing(f.cols[gen(uint32_t(f.cols.size()))]);
        if (o.swap) f.swap = i && gen(4) ? s.back().swap : gen(5) == 4;
        if (gen(12) == 11) f.minor = 4;
        if (o.props && gen(3) == 2) { int n = 1 + gen(3); for (int k = 0; k < n; k++) f.props[std::string("key") + char('0' + gen(5))] = genString(12); }
        genRows(f, o.minRows + gen(o.maxRows - o.minRows + 1), o.texty);
        chooseCodecs(f, o.writerLike);
        s.push_back(f);
    }
    return s;
}

std::string show(const Col& c, const Cell& v) {
    if (c.type == STRING) return "'" + v.s + "'";
    char t[40];
    snprintf(t, sizeof t, "%.17g", v.d);
    return t;
}
std::string show(const Stream& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        o += sim::strf("[%zu rows%s:", s[i].rows.size(), s[i].swap ? " swapped" : "");
        for (auto& c : s[i].cols) o += sim::strf(" %s:%s/%s*%d", c.name.c_str(), typeName(c.type), c.codec.c_str(), c.width);
        o += "] ";
    }
    return o;
}
void logStream(const char* what, const Stream& s) {
    for (size_t i = 0; i < s.size(); i++) {
        sim::log("%s frame %zu off=%zu len=%zu header=%zu rows=%zu swap=%d", what, i, s[i].off, s[i].len, s[i].headerLen, s[i].rows.size(), s[i].swap);
        for (auto& c : s[i].cols) sim::log("   col %s %s codec=%s width=%d min=%g max=%g", c.name.c_str(), typeName(c.type), c.codec.c_str(), c.width, c.mn, c.mx);
        for (size_t r = 0; r < s[i].rows.size() && r < 12; r++) {
            std::string t;
            for (size_t c = 0; c < s[i].cols.size(); c++) t += " " + show(s[i].cols[c], s[i].rows[r][c]);
            sim::log("   row %zu%s", r, t.c_str());
        }
    }
}
}
