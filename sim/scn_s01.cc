// S01: filtering a stream returns exactly the matching rows of every frame.
#include <cmath>
#include <cstring>
#include "harness.h"
#include "wgen.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/Select.h"
#include "odc/odccapi.h"
#include "odc/core/MetaData.h"
using namespace sim;
using namespace hn;
using ref::Col; using ref::Cell; using ref::Frame; using ref::Row; using ref::Stream;

namespace {
// ------------------------------------------------------------------ the stream
struct World {
    Stream s;
    std::string bytes;
    std::vector<Col> base;                 // the columns as they were first thought of
    bool drift = false;                    // types change
};
Cell value(const Col& c) {
    Cell v;
    if (c.isStr()) {
        static const char* words[] = {"a", "ab", "abc", "b", "zz", "station1", "", "Q7"};
        v.s = words[gen(8)];
        if (c.width > 1 && gen(2)) v.s += "_longer_name";
        v.s.resize(std::min<size_t>(v.s.size(), size_t(c.width) * 8));
        return v;
    }
    if (gen(6) == 5) { v.d = c.missing; return v; }
    if (c.type == ref::BITFIELD) { v.d = gen(256); return v; }
    v.d = double(gen(13)) - 6;
    if (gen(12) == 11) v.d = 16777217 + gen(3);
    if (c.type == ref::INTEGER) return v;
    if (gen(2)) v.d += 0.5;
    if (c.type == ref::DOUBLE && gen(8) == 7) v.d = 0.1 * (1 + gen(3));
    if (c.type == ref::REAL) v.d = double(float(v.d));
    return v;
}
void retype(Col& c, int t) { c.type = t; c.missing = t == ref::REAL || t == ref::DOUBLE ? ref::REAL_MDI : t == ref::STRING ? 0 : ref::INT_MDI; if (t != ref::BITFIELD) c.bits.clear(); else if (c.bits.empty()) c.bits = {{"f", 2}, {"g", 3}, {"h", 3}}; }
// used: the columns every frame has
World genWorld(bool drift, bool sameShape, bool spoil = false) {
    World w;
    w.drift = drift;
    static const char* names[] = {"lat", "lon", "seqno", "obsvalue", "statid", "flags", "k"};
    static const char* tabs[] = {"", "", "@hdr", "@body"};
    static const int types[] = {ref::REAL, ref::DOUBLE, ref::INTEGER, ref::REAL, ref::STRING, ref::BITFIELD, ref::INTEGER};
    int n = 1 + int(gen(5)), from = int(gen(7));
    for (int i = 0; i < n; i++) {
        Col c;
        int k = (from + i) % 7;
        c.name = std::string(names[k]) + tabs[gen(4)];
        retype(c, gen(4) == 3 ? types[gen(7)] : types[k]);
        if (c.isStr()) c.width = 1 + int(gen(3));
        w.base.push_back(c);
    }
    int nf = 1 + int(gen(5));
    bool haveRows = false;                 // the first frame with rows stays as it is
    for (int i = 0; i < nf; i++) {
        Frame f;
        f.cols = w.base;
        if (!sameShape) {
            for (auto& c : f.cols) {
                if (c.isStr() && gen(3) == 2) c.width = 1 + int(gen(3));
                if (drift && gen(3) == 2 && !c.isStr() && c.type != ref::BITFIELD) { static const int num[] = {ref::INTEGER, ref::REAL, ref::DOUBLE}; retype(c, num[gen(3)]); }
            }
            int extra = gen(2) ? int(gen(3)) : 0;
            for (int e = 0; e < extra; e++) { Col c; c.name = strf("extra%d", int(gen(4)) * 3 + e); retype(c, types[gen(7)]); if (c.isStr()) c.width = 1 + int(gen(2)); f.cols.push_back(c); }
            for (size_t k = f.cols.size(); k > 1; k--) if (gen(2)) std::swap(f.cols[k - 1], f.cols[gen(uint32_t(k))]);
        }
        if (spoil && haveRows && gen(3) == 2) {                     // a column goes missing, or stops being a string, or a number
            uint32_t k = gen(uint32_t(f.cols.size()));
            if (gen(2)) { if (f.cols.size() > 1) f.cols.erase(f.cols.begin() + k); }
            else { retype(f.cols[k], f.cols[k].isStr() ? ref::INTEGER : ref::STRING); f.cols[k].width = 1; }
        }
        f.swap = gen(6) == 5;
        if (gen(4) == 3) f.props["p"] = strf("%d", i);
        int rows = gen(5) == 4 ? 0 : 1 + int(gen(7));
        for (int r = 0; r < rows; r++) {
            Row row;
            for (auto& c : f.cols) row.push_back(r && gen(4) == 3 ? f.rows.back()[row.size()] : value(c));
            f.rows.push_back(row);
        }
        haveRows |= rows > 0;
        ref::chooseCodecs(f, false);
        w.s.push_back(f);
    }
    w.bytes = ref::encode(w.s);
    return w;
}

// ------------------------------------------------------------------ statements
enum { V_NULL = -1 };
struct Val { bool missing = false; double d = 0; std::string s; bool str = false; };
struct Item {                       // one output column
    std::string text;
    std::string col;                // the column it comes from
    int bit = -1, bits = 0;         // a field of a bitfield
    double add = 0;                 // added to it
    bool sum = false;
};
struct Cond {
    char op = 0;                    // 'c' comparison, 'n' is null, 'N' is not null, 'b' between, 'i' in, '&', '|', '!'
    std::string col, cmp;
    bool str = false;
    double x = 0, y = 0;
    std::string sx;
    std::vector<double> in;
    std::vector<Cond> sub;
    std::string text;
    int bit = -1, bits = 0;
};
struct Stmt { bool star = false; std::vector<Item> items; bool where = false; Cond c; std::string text; bool distinct = false; };

void usedBy(const Cond& c, std::vector<std::string>& u) { if (!c.col.empty()) u.push_back(c.col); for (auto& x : c.sub) usedBy(x, u); }
Val get(const Frame& f, const Row& r, const std::string& col, int bit, int bits) {
    int i = f.find(col);
    if (i < 0) harnessError("no column %s", col.c_str());
    const Col& c = f.cols[size_t(i)];
    Val v;
    if (c.isStr()) { v.str = true; v.s = r[size_t(i)].s; return v; }
    v.d = r[size_t(i)].d;
    v.missing = v.d == c.missing;
    if (bit >= 0 && !v.missing) v.d = double((uint64_t(v.d) >> bit) & ((1ull << bits) - 1));
    return v;
}
// 1 true, 0 false, V_NULL unknown.  eckit evaluates 'and' and 'or' from the left and stops at an unknown.
int eval(const Cond& c, const Frame& f, const Row& r) {
    switch (c.op) {
        case '&': { int a = eval(c.sub[0], f, r), b = eval(c.sub[1], f, r); return a == 1 ? b : a; }
        case '|': { int a = eval(c.sub[0], f, r), b = eval(c.sub[1], f, r); return a == 0 ? b : a; }
        case '!': { int a = eval(c.sub[0], f, r); return a < 0 ? V_NULL : !a; }
    }
    Val v = get(f, r, c.col, c.bit, c.bits);
    if (c.op == 'n') return v.missing;
    if (c.op == 'N') return !v.missing;
    if (v.missing) return V_NULL;
    if (c.op == 'b') return v.d >= c.x && v.d <= c.y;
    if (c.op == 'i') { for (double x : c.in) if (v.d == x) return 1; return 0; }
    if (c.str) return c.cmp == "=" ? v.s == c.sx : v.s != c.sx;
    if (c.cmp == "=") return v.d == c.x;
    if (c.cmp == "<>") return v.d != c.x;
    if (c.cmp == "<") return v.d < c.x;
    if (c.cmp == "<=") return v.d <= c.x;
    if (c.cmp == ">") return v.d > c.x;
    return v.d >= c.x;
}
std::string num(double d) { return strf("%.10g", d); }
// how the statement writes a column's name; the table part may be left out when that is unambiguous
std::string nameIn(const World& w, const std::string& full) {
    size_t k = full.find('@');
    if (k == std::string::npos || gen(3)) return full;
    std::string bare = full.substr(0, k);
    for (auto& f : w.s) for (auto& c : f.cols) if (c.name != full && c.name.substr(0, c.name.find('@')) == bare) return full;
    return bare;
}
std::string bitName(const std::string& written, const std::string& field) {
    size_t k = written.find('@');
    return k == std::string::npos ? written + "." + field : written.substr(0, k) + "." + field + written.substr(k);
}
double someValue(const World& w, const std::string& col) {
    std::vector<double> all;
    for (auto& f : w.s) { int i = f.find(col); if (i >= 0) for (auto& r : f.rows) if (r[size_t(i)].d != f.cols[size_t(i)].missing && fabs(r[size_t(i)].d) < 1e9) all.push_back(r[size_t(i)].d); }
    double x = all.empty() ? 1 : all[gen(uint32_t(all.size()))];
    return fabs(x - round(x * 2) / 2) > 0 ? 0.25 : x;      // what is not exact in decimals is not compared
}
Cond genCond(const World& w, int depth) {
    Cond c;
    if (depth > 0 && gen(2)) {
        uint32_t k = gen(5);
        c.op = k < 2 ? '&' : k < 4 ? '|' : '!';
        for (int i = 0; i < (c.op == '!' ? 1 : 2); i++) c.sub.push_back(genCond(w, depth - 1));
        c.text = c.op == '!' ? "(not (" + c.sub[0].text + "))" : "((" + c.sub[0].text + (c.op == '&' ? ") and (" : ") or (") + c.sub[1].text + "))";
        return c;
    }
    const Col& k = w.base[gen(uint32_t(w.base.size()))];
    c.col = k.name;
    std::string n = nameIn(w, k.name);
    if (k.isStr()) {
        c.op = 'c'; c.str = true;
        c.cmp = gen(2) ? "=" : "<>";
        static const char* words[] = {"a", "ab", "abc", "station1", "station1_longer_name", "a_longer_name", "nothing"};
        c.sx = words[gen(7)];
        c.text = n + " " + c.cmp + " '" + c.sx + "'";
        return c;
    }
    if (k.type == ref::BITFIELD && gen(2)) {
        uint32_t b = gen(uint32_t(k.bits.size()));
        c.bit = 0;
        for (uint32_t i = 0; i < b; i++) c.bit += k.bits[i].second;
        c.bits = k.bits[b].second;
        n = bitName(n, k.bits[b].first);
        c.op = 'c';
        static const char* cmps[] = {"=", "<>", "<", ">="};
        c.cmp = cmps[gen(4)];
        c.x = gen(8);
        c.text = n + " " + c.cmp + " " + num(c.x);
        return c;
    }
    uint32_t q = gen(8);
    if (q == 7) { c.op = gen(2) ? 'n' : 'N'; c.text = n + (c.op == 'n' ? " is null" : " is not null"); return c; }
    if (q == 6) { c.op = 'b'; c.x = someValue(w, k.name); c.y = c.x + gen(4); c.text = n + " between " + num(c.x) + " and " + num(c.y); return c; }
    if (q == 5) {
        c.op = 'i';
        int m = 1 + int(gen(3));
        for (int i = 0; i < m; i++) { c.in.push_back(someValue(w, k.name)); c.text += (i ? ", " : "") + num(c.in.back()); }
        c.text = n + " in (" + c.text + ")";
        return c;
    }
    static const char* cmps[] = {"=", "<>", "<", "<=", ">", ">="};
    c.op = 'c';
    c.cmp = cmps[gen(6)];
    c.x = someValue(w, k.name);
    c.text = n + " " + c.cmp + " " + num(c.x);
    return c;
}
Stmt genStmt(const World& w, bool allowStar) {
    Stmt q;
    std::string list;
    if (allowStar && gen(3) == 0) { q.star = true; list = "*"; }
    else {
        int n = 1 + int(gen(4));
        for (int i = 0; i < n; i++) {
            const Col& k = w.base[gen(uint32_t(w.base.size()))];
            Item it;
            it.col = k.name;
            it.text = nameIn(w, k.name);
            if (k.type == ref::BITFIELD && gen(2)) {
                uint32_t b = gen(uint32_t(k.bits.size()));
                it.bit = 0;
                for (uint32_t j = 0; j < b; j++) it.bit += k.bits[j].second;
                it.bits = k.bits[b].second;
                it.text = bitName(it.text, k.bits[b].first);
            }
            else if (!k.isStr() && k.type != ref::BITFIELD && gen(6) == 5) { it.sum = true; it.add = 1 + gen(3); it.text += " + " + num(it.add); }
            bool dup = false;
            for (auto& o : q.items) dup |= o.col == it.col && o.bit == it.bit && o.sum == it.sum && o.add == it.add;
            if (dup) continue;
            list += (q.items.empty() ? "" : ", ") + it.text;
            q.items.push_back(it);
        }
    }
    q.text = "select " + list;
    if (gen(4)) { q.where = true; q.c = genCond(w, 2); q.text += " where " + q.c.text; }
    return q;
}
// ------------------------------------------------------------------ what it should give
struct OutRow { std::vector<Val> v; size_t frame; };
struct Want { std::vector<OutRow> rows; bool impossible = false; size_t before = 0; };   // impossible: a frame lacks a column, `before` rows come before it
Want want(const World& w, const Stmt& q0, size_t frames = ~size_t(0)) {
    Want o;
    Stmt q = q0;
    if (q.star)
        for (auto& f : w.s) if (!f.rows.empty()) { for (auto& c : f.cols) { Item i; i.col = c.name; q.items.push_back(i); } break; }
    const Frame* first = nullptr;
    std::vector<std::string> used;
    for (auto& i : q.items) used.push_back(i.col);
    if (q.where) usedBy(q.c, used);
    for (size_t k = 0; k < w.s.size() && k < frames; k++) {
        const Frame& f = w.s[k];
        if (f.rows.empty()) continue;
        if (!first) first = &f;
        for (auto& u : used) {
            int c = f.find(u);
            bool bad = c < 0 || f.cols[size_t(c)].isStr() != first->cols[size_t(first->find(u))].isStr();
            if (bad) { o.impossible = true; o.before = o.rows.size(); return o; }
        }
        for (auto& r : f.rows) {
            if (q.where && eval(q.c, f, r) != 1) continue;
            OutRow x;
            x.frame = k;
            for (auto& i : q.items) { Val v = get(f, r, i.col, i.bit, i.bits); if (i.sum) v.d += i.add; x.v.push_back(v); }
            o.rows.push_back(x);
        }
    }
    o.before = o.rows.size();
    return o;
}
std::string showVal(const Val& v) { return v.missing ? "NULL" : v.str ? "'" + v.s + "'" : strf("%.17g", v.d); }
std::string diffVals(const std::vector<Val>& a, const std::vector<Val>& b) {
    if (a.size() != b.size()) return strf("%zu columns, want %zu", b.size(), a.size());
    for (size_t i = 0; i < a.size(); i++) {
        bool same = a[i].missing == b[i].missing && a[i].str == b[i].str && (a[i].missing || (a[i].str ? a[i].s == b[i].s : a[i].d == b[i].d));
        if (!same) return strf("column %zu: got %s, want %s", i, showVal(b[i]).c_str(), showVal(a[i]).c_str());
    }
    return "";
}

// ------------------------------------------------------------------ ways of asking
enum Route { Q_PATH, Q_HANDLE, Q_CAPI, Q_FILTER, Q_FILTERFILE, Q_FRAME, Q_AGG, Q_N };
const char* routeName(int r) { static const char* n[] = {"Select(path)", "Select(handle)", "odb_select", "filter(handle)", "filter(file)", "Frame::filter", "aggregated Frame::filter"}; return n[r]; }
struct Got2 { std::vector<OutRow> rows; bool error = false; std::string what; uint64_t failures = 0; std::string out; long count = -1; std::vector<std::vector<Col>> cols; };

void takeFrame(const Frame& f, Got2& g) {
    g.cols.push_back(f.cols);
    for (auto& r : f.rows) {
        OutRow o;
        o.frame = 0;
        for (size_t c = 0; c < r.size(); c++) {
            Val v;
            if (f.cols[c].isStr()) { v.str = true; v.s = r[c].s; }
            else { v.d = r[c].d; v.missing = v.d == f.cols[c].missing; }
            o.v.push_back(v);
        }
        g.rows.push_back(o);
    }
}
bool g_longs = false;
int genRoute() {
    int route = int(gen(Q_N));
    if (gen(3) == 2) setenv("ODB_ROWS_BUFFER_SIZE", std::to_string(1 + gen(5)).c_str(), 1);
    eckitInit();
    wr::Env e;
    e.longs = g_longs = route >= Q_FILTER && gen(4) == 3;    // filters do not depend on how integers are read
    wr::apply(e);
    return route;
}
Got2 ask(int route, const World& w, const std::string& bytes, const std::string& sql, const HandlePlan& in, const HandlePlan& out) {
    Got2 g;
    auto is = std::make_shared<HandleState>(), os = std::make_shared<HandleState>();
    is->data = bytes; is->plan = in; os->plan = out;
    auto iterate = [&](odc::Select& sel) {
        auto it = sel.begin();
        auto end = sel.end();
        for (; it != end; ++it) {
            step();
            OutRow o;
            o.frame = 0;
            const odc::core::MetaData& md = it->columns();
            if (it->isNewDataset() || g.cols.empty()) {
                std::vector<Col> cs;
                for (auto* c : md) { Col k; k.name = c->name(); k.type = int(c->type()); cs.push_back(k); }
                g.cols.push_back(cs);
            }
            for (size_t c = 0; c < md.size(); c++) {
                Val v;
                const char* p = reinterpret_cast<const char*>(&it->data(c));
                if (md[c]->type() == odc::api::STRING) { v.str = true; v.s = std::string(p, strnlen(p, md[c]->dataSizeDoubles() * 8)); }
                else { memcpy(&v.d, p, 8); v.missing = v.d == md[c]->missingValue(); }
                o.v.push_back(v);
            }
            g.rows.push_back(o);
        }
    };
    auto decoded = [&](const std::string& b) {
        ref::Decoded d = ref::decode(b);
        SIM_CHECK(d.ok, "no-odb", "%s: the output is no ODB: %s", routeName(route), d.error.c_str());
        for (auto& f : d.frames) takeFrame(f, g);
    };
    bool fine = guarded([&] {
        switch (route) {
            case Q_PATH: { odc::Select s(sql, eckit::PathName("/sim/in.odb")); iterate(s); break; }
            case Q_HANDLE: { SimHandle h(is); odc::Select s(sql, h); iterate(s); break; }
            case Q_CAPI: {
                size_t where = sql.find(" where ");
                std::string from = " from \"/sim/in.odb\"", full = where == std::string::npos ? sql + from : sql.substr(0, where) + from + sql.substr(where);
                int err = 0;
                struct C { oda_ptr o = nullptr; oda_select_iterator_ptr it = nullptr; ~C() { if (it) odb_select_iterator_destroy(it); if (o) odb_select_destroy(o); } } c;
                c.o = odb_select_create("", &err);
                c.it = where == std::string::npos && sql.size() % 2 ? odb_create_select_iterator_from_file(c.o, sql.c_str(), "/sim/in.odb", &err) : odb_create_select_iterator(c.o, full.c_str(), &err);
                if (!c.it) throw eckit::UserError("odb_create_select_iterator: " + std::to_string(err));
                int n = 0, size = 0, fresh = 0;
                odb_select_iterator_get_no_of_columns(c.it, &n);
                odb_select_iterator_get_row_buffer_size_doubles(c.it, &size);
                std::vector<double> row(size_t(size), 0.0);
                while (odb_select_iterator_get_next_row(c.it, size, row.data(), &fresh) == 0) {
                    step();
                    OutRow o;
                    o.frame = 0;
                    std::vector<Col> cs;
                    for (int i = 0; i < n; i++) {
                        int type = 0, off = 0, width = 0, len = 0;
                        char* name = nullptr;
                        double miss = 0;
                        odb_select_iterator_get_column_type(c.it, i, &type);
                        odb_select_iterator_get_column_offset(reinterpret_cast<oda_read_iterator_ptr>(c.it), i, &off);
                        odb_select_iterator_get_column_size_doubles(reinterpret_cast<oda_read_iterator_ptr>(c.it), i, &width);
                        odb_select_iterator_get_column_name(c.it, i, &name, &len);
                        odb_select_iterator_get_missing_value(c.it, i, &miss);
                        Col k; k.name = std::string(name, size_t(len)); k.type = type;
                        cs.push_back(k);
                        SIM_CHECK(off >= 0 && width > 0 && size_t(off + width) <= row.size(), "layout", "column %d is said to be %d doubles at %d of a row of %zu", i, width, off, row.size());
                        Val v;
                        if (type == ref::STRING) { v.str = true; const char* p = reinterpret_cast<const char*>(&row[size_t(off)]); v.s = std::string(p, strnlen(p, size_t(width) * 8)); }
                        else { v.d = row[size_t(off)]; v.missing = v.d == miss; }
                        o.v.push_back(v);
                    }
                    if (fresh || g.cols.empty()) g.cols.push_back(cs);
                    g.rows.push_back(o);
                }
                break;
            }
            case Q_FILTER: { SimHandle h(is), o(os); g.count = long(odc::api::filter(sql, h, o)); break; }
            case Q_FILTERFILE: {
                struct F { eckit::FileHandle h; bool closed = false; F(const char* p) : h(p) {} ~F() { if (!closed) try { h.close(); } catch (...) {} } } a("/sim/in.odb"), b("/sim/out.odb");
                g.count = long(odc::api::filter(sql, a.h, b.h));
                b.closed = true;
                b.h.close();
                break;
            }
            default: {
                odc::api::Reader rd(new SimHandle(is), route == Q_AGG);
                while (true) {
                    step();
                    odc::api::Frame f = rd.next();
                    if (!f) break;
                    odc::api::Frame r = f.filter(sql);
                    if (!r) continue;
                    Frame x = decodeFrame(r, 1, 0, g_longs);
                    for (auto& c : x.cols) c.missing = c.type == ref::REAL || c.type == ref::DOUBLE ? ref::REAL_MDI : ref::INT_MDI;
                    takeFrame(x, g);
                }
            }
        }
    }, g.what);
    g.error = !fine;
    if (fine && route == Q_FILTER) { g.out = os->data; decoded(g.out); }
    if (fine && route == Q_FILTERFILE) { g.out = vfs::exists("/sim/out.odb") ? vfs::get("/sim/out.odb") : ""; decoded(g.out); }
    g.failures = is->failures + os->failures;
    return g;
}
// for whole results, or for the rows seen before an error
std::string judge(const Want& w, const Got2& g, bool prefix) {
    for (size_t i = 0; i < g.rows.size(); i++) {
        if (i >= w.rows.size()) return strf("%zu rows, want %zu", g.rows.size(), w.rows.size());
        std::string d = diffVals(w.rows[i].v, g.rows[i].v);
        if (!d.empty()) return strf("row %zu (of frame %zu), ", i, w.rows[i].frame) + d;
    }
    if (!prefix && g.rows.size() != w.rows.size()) return strf("%zu rows, want %zu", g.rows.size(), w.rows.size());
    if (!prefix && g.count >= 0 && size_t(g.count) != w.rows.size()) return strf("%ld rows are said to match, %zu do", g.count, w.rows.size());
    return "";
}
HandlePlan genCuts() {
    HandlePlan p;
    p.chunk = gen(2) ? (gen(3) ? -1 : 1 + int(gen(40))) : 0;
    p.estimate = gen(3) != 2;
    p.seekable = true;
    return p;
}
void put(const std::string& bytes) { vfs::format(); vfs::put("/sim/in.odb", bytes); }
// columns the aggregated frames agree on
// A caller's row buffer is as long as the first row: a string that changes its width cannot be delivered.
bool widthsChange(const World& w, const Stmt& q) {
    const Frame* first = nullptr;
    for (auto& f : w.s) {
        if (f.rows.empty()) continue;
        if (!first) { first = &f; continue; }
        for (auto& c : f.cols) {
            int i = first->find(c.name);
            bool used = q.star;
            for (auto& t : q.items) used |= t.col == c.name;
            if (used && i >= 0 && c.isStr() && first->cols[size_t(i)].isStr()) return true;   // narrower or wider on file, depending on the words
        }
    }
    return false;
}
bool framewise(int route) { return route == Q_FRAME || route == Q_AGG; }
// Frame::filter sees one (logical) frame at a time: 'select *' is about that frame
Want wantFor(int route, const World& w, const Stmt& q) {
    if (!framewise(route)) return want(w, q);
    Stream s = route == Q_AGG ? aggregate(w.s, -1) : w.s;
    Want o;
    for (size_t k = 0; k < s.size(); k++) {
        World one;
        one.s = {s[k]};
        Want x = want(one, q);
        for (auto& r : x.rows) { r.frame = k; o.rows.push_back(r); }
        if (x.impossible) { o.impossible = true; break; }
    }
    o.before = o.rows.size();
    return o;
}
}

SCENARIO(S01, select, 5) {
    int route = genRoute();
    bool spoil = !framewise(route) && gen(8) == 7;
    World w = genWorld(gen(2), gen(3) == 0, spoil);
    Stmt q = genStmt(w, route != Q_AGG);
    HandlePlan cuts = genCuts();
    log("%s: %s", routeName(route), q.text.c_str());
    ref::logStream("in", w.s);
    put(w.bytes);
    Want e = wantFor(route, w, q);
    Got2 g = ask(route, w, w.bytes, q.text, cuts, HandlePlan());
    if (route == Q_CAPI && g.error && !e.impossible && widthsChange(w, q)) {
        std::string d = judge(e, g, true);
        SIM_CHECK(d.empty(), "wrong", "%s of '%s', before the error: %s", routeName(route), q.text.c_str(), d.c_str());
        count("row-buffer-too-small");
        return;
    }
    if (e.impossible) {
        SIM_CHECK(g.error, "missing-column", "%s of '%s' reports no error although a frame lacks a column it needs", routeName(route), q.text.c_str());
        std::string d = judge(e, g, true);
        SIM_CHECK(d.empty(), "wrong", "%s of '%s', before the error: %s", routeName(route), q.text.c_str(), d.c_str());
        return;
    }
    SIM_CHECK(!g.error, "refused", "%s of '%s' was refused: %s", routeName(route), q.text.c_str(), g.what.c_str());
    std::string d = judge(e, g, false);
    SIM_CHECK(d.empty(), "wrong", "%s of '%s': %s", routeName(route), q.text.c_str(), d.c_str());
    SIM_CHECK(vfs::openHandles() == 0, "left-open", "%s: %llu files are still open", routeName(route), (unsigned long long)vfs::openHandles());
    std::string sig = q.c.text.empty() ? "" : std::string(1, q.c.op);
    for (auto& f : w.s) { sig += '/'; for (auto& c : f.cols) sig += char('0' + c.type * 3 + c.width); }
    state(fnv(sig.data(), sig.size(), uint64_t(route * 100 + std::min<size_t>(e.rows.size(), 50))));
}

// more rows than one written frame takes
SCENARIO(S01, large, 1) {
    int route = genRoute();
    World w;
    Col k; k.name = "k"; k.type = ref::INTEGER; k.missing = ref::INT_MDI;
    Col v; v.name = "v"; v.type = ref::DOUBLE; v.missing = ref::REAL_MDI;
    w.base = {k, v};
    int nf = 1 + int(gen(3));
    long total = 0;
    for (int i = 0; i < nf; i++) {
        Frame f;
        f.cols = w.base;
        int rows = int(gen(4) ? 10001 + gen(2500) : gen(3000));
        for (int r = 0; r < rows; r++) { Row x(2); x[0].d = double(total % 100); x[1].d = double(total); total++; f.rows.push_back(x); }
        ref::chooseCodecs(f, false);
        w.s.push_back(f);
    }
    w.bytes = ref::encode(w.s);
    static const char* conds[] = {"", " where k < 50", " where k <> 7", " where k = 3", " where v >= 0", " where v < 0"};
    int c = int(gen(6));
    std::string sql = "select k, v" + std::string(conds[c]);
    if (gen(2)) sql = std::string("select v, k") + conds[c];
    bool vFirst = sql[7] == 'v';
    Want e;
    for (size_t i = 0; i < w.s.size(); i++)
        for (auto& r : w.s[i].rows) {
            double kk = r[0].d;
            if ((c == 1 && kk >= 50) || (c == 2 && kk == 7) || (c == 3 && kk != 3) || c == 5) continue;
            OutRow o;
            o.frame = i;
            o.v.resize(2);
            o.v[vFirst].d = r[0].d;
            o.v[!vFirst].d = r[1].d;
            e.rows.push_back(o);
        }
    HandlePlan cuts = genCuts();
    if (cuts.chunk > 0) cuts.chunk = 4096;
    log("%s: %s, %ld rows", routeName(route), sql.c_str(), total);
    put(w.bytes);
    Got2 g = ask(route, w, w.bytes, sql, cuts, HandlePlan());
    SIM_CHECK(!g.error, "refused", "%s of '%s' was refused: %s", routeName(route), sql.c_str(), g.what.c_str());
    std::string d = judge(e, g, false);
    SIM_CHECK(d.empty(), "wrong", "%s of '%s': %s", routeName(route), sql.c_str(), d.c_str());
    state(uint64_t(total) * 64 + uint64_t(route * 6 + c));
}

// the input fails or ends early, or the output fails; afterwards the same question is asked again
SCENARIO(S01, faults, 5) {
    int route = genRoute();
    World w = genWorld(gen(2), gen(3) == 0);
    Stmt q = genStmt(w, route != Q_AGG);
    HandlePlan cuts = genCuts();
    log("%s: %s", routeName(route), q.text.c_str());
    ref::logStream("in", w.s);
    put(w.bytes);
    Want e = wantFor(route, w, q);
    if (e.impossible || (route == Q_CAPI && widthsChange(w, q))) return;
    vfs::countOps();
    Got2 g = ask(route, w, w.bytes, q.text, cuts, HandlePlan());
    std::string d = judge(e, g, false);
    SIM_CHECK(!g.error && d.empty(), "wrong", "%s of '%s': %s", routeName(route), q.text.c_str(), g.error ? g.what.c_str() : d.c_str());
    bool file = route == Q_PATH || route == Q_CAPI || route == Q_FILTERFILE;
    bool hasOut = route == Q_FILTER || route == Q_FILTERFILE;
    int kind = int(flt(hasOut ? 3 : 2));                     // 0 input fails, 1 input is cut, 2 output fails
    static const int errs[] = {EIO, ENOMEM, EACCES};
    HandlePlan in = cuts, out;
    std::string bytes = w.bytes, what;
    size_t cutFrames = w.s.size();
    bool honest = false;                                     // a cut between frames is an end like any other
    if (kind == 1) {
        size_t n = flt(2) ? w.s[flt(uint32_t(w.s.size()))].off + (flt(2) ? flt(30) : 0) : flt(uint32_t(bytes.size()));
        n = std::min(n, bytes.size() - 1);
        bytes.resize(n);
        for (size_t k = 0; k < w.s.size(); k++) if (n == w.s[k].off) { cutFrames = k; honest = true; }
        what = strf("the input ends at byte %zu", n);
    }
    else if (file) {
        const char* path = kind == 0 ? "/sim/in.odb" : "/sim/out.odb";
        int mask = kind == 0 ? vfs::OPEN | vfs::READ | vfs::SEEK : vfs::OPEN | vfs::WRITE | vfs::CLOSE;
        uint64_t n = vfs::ops(mask, path);
        if (n == 0) return;
        vfs::Fault f{mask, path, flt(uint32_t(n)), flt(2) ? ~0ull : 1, vfs::ERR, errs[flt(3)], 0};
        vfs::addFault(f);
        what = strf("%s: operation %llu fails %s", path, (unsigned long long)f.at, f.times == 1 ? "once" : "from then on");
    }
    else {
        HandlePlan& p = kind == 0 ? in : out;
        p.failAtByte = long(flt(uint32_t((kind == 0 ? bytes.size() : g.out.size()) + 1)));
        p.failTimes = flt(2) ? 1000000 : 1;
        static const int hows[] = {H_READERROR, H_STDEXC, H_MINUS1, H_SHORT};
        p.how = hows[flt(kind == 0 ? 3 : 4)];
        what = strf("%s fails (%s) at byte %ld", kind == 0 ? "reading" : "writing", howName(p.how), p.failAtByte);
    }
    log("%s", what.c_str());
    put(bytes);
    uint64_t before = vfs::faultsFired();
    Got2 h = ask(route, w, bytes, q.text, in, out);
    bool met = h.failures > 0 || vfs::faultsFired() > before || kind == 1;
    count(h.error ? "reported" : met ? "survived" : "not-met");
    if (h.error) {
        d = judge(e, h, true);
        SIM_CHECK(met, "refused", "%s of '%s': %s, was not met and yet an error is reported: %s", routeName(route), q.text.c_str(), what.c_str(), h.what.c_str());
        SIM_CHECK(d.empty(), "wrong", "%s of '%s': %s; before the error: %s", routeName(route), q.text.c_str(), what.c_str(), d.c_str());
        SIM_CHECK(!(kind == 1 && honest && cutFrames > 0), "refused", "%s of '%s': %s, between two frames, and an error is reported: %s", routeName(route), q.text.c_str(), what.c_str(), h.what.c_str());
    }
    else {
        World part = w;
        if (honest) part.s.resize(cutFrames);
        Want pe = wantFor(route, part, q);
        d = judge(pe, h, false);
        SIM_CHECK(d.empty(), "failure-not-reported", "%s of '%s': %s, and yet success is reported: %s", routeName(route), q.text.c_str(), what.c_str(), d.c_str());
    }
    vfs::clearFaults();
    SIM_CHECK(vfs::openHandles() == 0, "left-open", "%s: %s; %llu files are still open", routeName(route), what.c_str(), (unsigned long long)vfs::openHandles());
    put(w.bytes);
    Got2 again = ask(route, w, w.bytes, q.text, cuts, HandlePlan());
    d = judge(e, again, false);
    SIM_CHECK(!again.error && d.empty(), "wrong-retry", "%s of '%s' after a failure: %s", routeName(route), q.text.c_str(), again.error ? again.what.c_str() : d.c_str());
    state(fnv(what.data(), what.size(), uint64_t(route)));
}

// no statement: the bytes themselves, or an error
SCENARIO(S01, everything, 1) {
    int route = genRoute();
    bool file = route % 2;
    World w = genWorld(gen(2), gen(3) == 0);
    HandlePlan cuts = genCuts(), out;
    put(w.bytes);
    auto is = std::make_shared<HandleState>(), os = std::make_shared<HandleState>();
    is->data = w.bytes;
    int kind = int(flt(3));                    // nothing fails, reading does, writing does
    HandlePlan& p = kind == 1 ? cuts : out;
    if (kind) {
        p.failAtByte = long(flt(uint32_t(w.bytes.size() + 1)));
        p.failTimes = flt(2) ? 1000000 : 1;
        static const int hows[] = {H_READERROR, H_STDEXC, H_MINUS1, H_SHORT};
        p.how = hows[flt(kind == 1 ? 3 : 4)];
        log("%s fails (%s) at byte %ld", kind == 1 ? "reading" : "writing", howName(p.how), p.failAtByte);
        if (file) {
            vfs::addFault(vfs::Fault{kind == 1 ? vfs::OPEN | vfs::READ : vfs::OPEN | vfs::WRITE | vfs::CLOSE, kind == 1 ? "/sim/in.odb" : "/sim/out.odb", flt(4), flt(2) ? ~0ull : 1, vfs::ERR, EIO, 0});
        }
    }
    is->plan = cuts;
    os->plan = out;
    std::string what;
    bool fine = guarded([&] {
        if (file) {
            struct F { eckit::FileHandle h; bool closed = false; F(const char* n) : h(n) {} ~F() { if (!closed) try { h.close(); } catch (...) {} } } a("/sim/in.odb"), b("/sim/out.odb");
            odc::api::filter("", a.h, b.h);
        }
        else { SimHandle a(is), b(os); odc::api::filter("", a, b); }
    }, what);
    std::string got = file ? (vfs::exists("/sim/out.odb") ? vfs::get("/sim/out.odb") : "") : os->data;
    bool met = is->failures + os->failures + vfs::faultsFired() > 0;
    count(!fine ? "reported" : met ? "survived" : "not-met");
    SIM_CHECK(fine || met, "refused", "a copy by filter() was refused: %s", what.c_str());
    SIM_CHECK(!fine || got == w.bytes, met ? "failure-not-reported" : "wrong", "filter() without a statement gives %zu other bytes than the %zu of the input, and reports success", got.size(), w.bytes.size());
    state(fnv(w.bytes.data(), w.bytes.size(), uint64_t(kind * 2 + file)));
}
