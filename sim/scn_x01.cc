// X01: a command line tool that reports success has produced its complete, correct output.
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include "harness.h"
using namespace sim;
using namespace hn;
using ref::Col; using ref::Cell; using ref::Frame; using ref::Row; using ref::Stream;
int odc_tool_main(int argc, char* argv[]);

namespace {
const char* IN = "/sim/in.odb";
const char* IN2 = "/sim/in2.odb";
const char* OUT = "/sim/out.odb";
const char* STDOUT = "/sim/stdout";

enum Kind { T_COMPACT, T_FIXROWSIZE, T_SET, T_MDSET, T_MERGE, T_MERGESQL, T_SQL, T_SQLTEXT, T_IMPORT, T_INDEX, T_COUNT, T_LS, T_LSFILE, T_HEADER, T_OFFSETS, T_COMPARE, T_DIFFER, T_XYV, T_N };

struct Job {
    int kind = 0;
    std::vector<std::string> args;
    std::vector<std::pair<std::string, std::string>> in;   // input files
    std::vector<std::pair<std::string, std::string>> scripts;
    bool out = false;                   // writes OUT
    bool print = false;                 // its result is what it prints
    int exit = 0;                       // without faults
    Stream a, b;
    Stream want;                        // rows of the output (odb outputs)
    bool frames = false;                // the output has the frames of want, not just its rows
    bool odb = false;
    std::string text;                   // what it prints
    bool exactText = false;
    std::string line() const { std::string l = "odc"; for (auto& x : args) l += " " + x; return l; }
};

// What a tool prints goes to a buffer of its own, which can be made to fail at a byte.
struct Print : std::streambuf {
    std::string text;
    long failAt = -1;
    int overflow(int c) override { char x = char(c); return c == traits_type::eof() || xsputn(&x, 1) != 1 ? traits_type::eof() : c; }
    std::streamsize xsputn(const char* p, std::streamsize n) override {
        if (failAt >= 0 && long(text.size()) + n > failAt) n = failAt - long(text.size());
        text.append(p, size_t(n));
        return n;
    }
};

struct Res { int rc = 0; std::string log, printed, out; bool hasOut = false; };
Res runJob(const Job& j, long printFails = -1) {
    Res r;
    std::vector<std::string> args = j.args;
    args.insert(args.begin(), "odc");
    r.rc = subprocess([&] {
        setenv("odc_NAN_IS_OK", "1", 1);
        std::vector<char*> argv;
        for (auto& a : args) argv.push_back(&a[0]);
        argv.push_back(nullptr);
        Print p;
        p.failAt = printFails;
        auto* old = std::cout.rdbuf(&p);
        int rc = odc_tool_main(int(args.size()), argv.data());
        std::cout.rdbuf(old);
        std::cout.clear();
        vfs::quiet(true);
        vfs::put(STDOUT, p.text);
        vfs::quiet(false);
        return rc;
    }, &r.log);
    vfs::quiet(true);
    if (vfs::exists(STDOUT)) r.printed = vfs::get(STDOUT);
    vfs::remove(STDOUT);
    r.hasOut = vfs::exists(OUT);
    if (r.hasOut) r.out = vfs::get(OUT);
    vfs::quiet(false);
    return r;
}
void fresh(const Job& j) {
    vfs::format();
    for (auto& f : j.in) vfs::put(f.first, f.second);
}
// the printed lines that are results, not messages
std::string results(const Job& j, const std::string& printed) {
    std::string r;
    std::stringstream s(printed);
    std::string l;
    while (std::getline(s, l)) {
        if (l.find("second elapsed") != std::string::npos || l.find("Selected ") == 0 || l.find(" row(s)") != std::string::npos) continue;
        if (l.size() > 24 && l.find("(I)") != std::string::npos) continue;
        r += l + "\n";
    }
    (void)j;
    return r;
}

// ------------------------------------------------------------------ inputs
// Other codecs for the same values (strings are not cut to 8 characters)
void recode(Frame& f) {
    for (int i = 0;; i++) {
        Frame g = f;
        ref::chooseCodecs(g, false);
        bool cut = false;
        for (size_t r = 0; r < f.rows.size(); r++) for (size_t c = 0; c < f.cols.size(); c++) cut = cut || g.rows[r][c].s != f.rows[r][c].s;
        if (cut && i < 20) continue;
        f = g;
        return;
    }
}

Stream gen1(int kind) {
    ref::GenOpts o;
    o.maxFrames = 4; o.maxRows = 8; o.maxCols = 5;
    o.texty = gen(3) == 2;
    o.swap = true;
    if (kind == T_SQL && gen(2)) { o.sameCols = true; o.minCols = 3; }
    if (kind == T_MERGE || kind == T_MERGESQL || kind == T_XYV) { o.sameCols = true; o.minRows = 1; }
    Stream s = ref::genStream(o);
    if (gen(2)) for (auto& f : s) {                          // strings longer than those before
        if (gen(3) || f.rows.empty()) continue;
        bool any = false;
        for (size_t c = 0; c < f.cols.size(); c++) if (f.cols[c].isStr() && gen(4)) { auto& t = f.rows[gen(uint32_t(f.rows.size()))][c].s; t += std::string(1 + gen(12), char('A' + gen(26))); f.cols[c].width = 4; any = true; }
        if (any) recode(f);
    }
    return s;
}
// A query on the command line or in a file
const char* SCRIPT[2] = {"/sim/a.sql", "/sim/b.sql"};
std::string query(Job& j, int i, const std::string& columns) {
    static const size_t pad[] = {0, 1, 60, 1000, 1009, 1017, 1018, 1019, 1024, 2100};
    if (gen(3)) return "select " + columns;
    std::string s = "select", gap = gen(2) ? "\n" : " ";
    size_t n = pad[gen(10)] + gen(4), at = columns.rfind(',');
    bool before = gen(2) || at == std::string::npos;
    std::string fill(n, ' ');
    if (gen(2)) for (size_t k = 0; k < n; k += 50) fill[k] = '\n';
    s += gap + (before ? fill + columns : columns.substr(0, at) + fill + columns.substr(at));
    if (gen(3) == 0) s += ";";
    if (gen(2)) s += "\n";
    j.scripts.push_back({SCRIPT[i], s});
    return SCRIPT[i];
}
size_t rows(const Stream& s) { size_t n = 0; for (auto& f : s) n += f.rows.size(); return n; }
Col* someCol(Stream& s, bool (*ok)(const Col&)) {
    std::vector<std::string> names;
    for (auto& c : s[0].cols) {
        bool all = ok(c);
        for (auto& f : s) { int i = f.find(c.name); all = all && i >= 0 && ok(f.cols[size_t(i)]) && f.cols[size_t(i)].type == c.type; }
        if (all) names.push_back(c.name);
    }
    if (names.empty()) return nullptr;
    return &s[0].cols[size_t(s[0].find(names[gen(uint32_t(names.size()))]))];
}
Col numCol(const char* name, int type) { Col c; c.name = name; c.type = type; c.missing = type == ref::REAL || type == ref::DOUBLE ? ref::REAL_MDI : ref::INT_MDI; return c; }

bool makeJob(Job& j) {
    j.kind = int(gen(T_N));
    Stream s = gen1(j.kind);
    std::string bytes;
    switch (j.kind) {
        case T_COMPACT: case T_FIXROWSIZE: {
            if (rows(s) == 0) return false;   // nothing would be written, and that has no columns to verify
            j.args = {j.kind == T_COMPACT ? "compact" : "fixrowsize", IN, OUT};
            j.want = s;
            break;
        }
        case T_SET: {
            if (rows(s) == 0) return false;
            Col* c = someCol(s, [](const Col&) { return true; });
            if (!c) return false;
            std::string name = c->name, text;
            j.want = s;
            Cell v;
            if (c->isStr()) { static const char* w[] = {"a", "new", "12345678"}; v.s = w[gen(3)]; text = "'" + v.s + "'"; v.s = std::string(8 - v.s.size(), ' ') + v.s; }   // flush right
            else { v.d = c->type == ref::BITFIELD ? gen(2) : double(gen(200)) - 100; text = strf("%g", v.d); }
            for (auto& f : j.want) for (auto& r : f.rows) r[size_t(f.find(name))] = v;
            j.args = {"set", name + "=" + text, IN, OUT};
            if (gen(2)) {
                Col* k = someCol(s, [](const Col& c) { return !c.isStr() && c.type != ref::BITFIELD; });
                if (k && k->name != name) {
                    double v2 = double(gen(50));
                    for (auto& f : j.want) for (auto& r : f.rows) r[size_t(f.find(k->name))].d = v2;
                    j.args[1] += strf(",%s=%g", k->name.c_str(), v2);
                }
            }
            break;
        }
        case T_MDSET: {
            bool constant = gen(2);
            Col* c = someCol(s, [](const Col& c) { return c.type == ref::INTEGER || c.type == ref::REAL || c.type == ref::DOUBLE; });
            if (!c) return false;
            std::string name = c->name;
            if (constant) for (auto& f : s) { auto& k = f.cols[size_t(f.find(name))]; for (auto& r : f.rows) r[size_t(f.find(name))].d = 5; k.codec = "constant"; k.mn = k.mx = 5; k.hasMissing = 0; k.table.clear(); }
            j.want = s;
            double v = double(gen(100));
            int type = gen(2) ? c->type : c->type == ref::INTEGER ? ref::REAL : ref::DOUBLE;
            if (type == ref::DOUBLE && c->type == ref::REAL) type = ref::REAL;
            if (!constant && type == c->type) type = ref::INTEGER == c->type ? ref::INTEGER : c->type;
            std::string spec = name;
            static const char* tn[] = {"", "integer", "real", "string", "bitfield", "double"};
            if (type != c->type || gen(2)) spec += std::string(":") + tn[type];
            else type = c->type;
            if (constant) spec += strf("=%g", v);
            else if (spec == name) return false;
            for (auto& f : j.want) {
                size_t i = size_t(f.find(name));
                f.cols[i].type = type;
                if (constant) { f.cols[i].mn = f.cols[i].mx = v; for (auto& r : f.rows) r[i].d = v; }
            }
            j.frames = true;
            j.args = {"mdset", spec, IN, OUT};
            break;
        }
        case T_MERGE: case T_MERGESQL: {
            Stream t = gen1(j.kind);
            for (auto& f : t) for (auto& c : f.cols) c.name = "m_" + c.name;
            for (auto& f : s) f.props.clear();
            j.b = t;
            // zipped rows
            Frame z;
            z.cols = s[0].cols;
            for (auto& c : t[0].cols) z.cols.push_back(c);
            std::vector<Row> ra, rb;
            auto all = [&](const Stream& from, std::vector<Row>& to) {         // what is missing stays missing
                for (auto f : from) {
                    if (j.kind == T_MERGESQL) selected(f);
                    for (auto& r : f.rows) {
                        for (size_t c = 0; c < f.cols.size(); c++) if (j.kind == T_MERGE && !f.cols[c].isStr() && r[c].d == f.cols[c].missing && f.cols[c].hasMissing) r[c].d = from[0].cols[c].missing;
                        to.push_back(r);
                    }
                }
            };
            all(s, ra);
            all(t, rb);
            for (size_t i = 0; i < ra.size() && i < rb.size(); i++) { Row r = ra[i]; r.insert(r.end(), rb[i].begin(), rb[i].end()); z.rows.push_back(r); }
            j.want = {z};
            j.args = {"merge"};
            if (j.kind == T_MERGESQL) j.args.push_back("-S");
            for (auto& x : {"-o", OUT}) j.args.push_back(x);
            j.args.push_back(IN);
            if (j.kind == T_MERGESQL) j.args.push_back(query(j, 0, "*"));
            j.args.push_back(IN2);
            if (j.kind == T_MERGESQL) j.args.push_back(query(j, 1, "*"));
            break;
        }
        case T_SQL: case T_SQLTEXT: {
            std::vector<std::string> names;
            std::string list;
            int n = gen(2) ? 8 : 1 + int(gen(2));
            for (int k = 0; k < n; k++) {
                Col* c = someCol(s, [](const Col&) { return true; });
                if (!c) return false;
                if (std::find(names.begin(), names.end(), c->name) != names.end()) continue;
                list += (names.empty() ? "" : ",") + c->name;
                names.push_back(c->name);
            }
            std::string q = query(j, 0, list);
            j.args = {"sql", q, "-i", IN, "-o", OUT};
            if (j.kind == T_SQLTEXT) { j.args.push_back("-f"); j.args.push_back("ascii"); if (gen(2)) j.args.push_back("-T"); }
            else if (gen(2)) { j.args.push_back("-f"); j.args.push_back("odb"); }   // the default with -o
            for (auto& f : s) {
                Frame g;
                g.rows.resize(f.rows.size());
                for (auto& name : names) {
                    size_t k = size_t(f.find(name));
                    g.cols.push_back(f.cols[k]);
                    for (size_t n = 0; n < f.rows.size(); n++) g.rows[n].push_back(f.rows[n][k]);
                }
                selected(g);
                j.want.push_back(g);
            }
            break;
        }
        case T_IMPORT: {
            Frame f;
            bool longStrings = gen(2);
            Col str; str.name = "s"; str.type = ref::STRING; str.width = 1;
            f.cols = {numCol("i", ref::INTEGER), numCol("r", ref::REAL), str, numCol("d@body", ref::DOUBLE)};
            std::string delim = gen(3) == 0 ? ";" : gen(2) ? "TAB" : ",", d = delim == "TAB" ? "\t" : delim;
            bytes = "i:INTEGER" + d + "r:REAL" + d + "s:STRING" + d + "d@body:DOUBLE\n";
            int n = 1 + int(gen(12));
            for (int k = 0; k < n; k++) {
                Row x(4);
                x[0].d = double(gen(2000)) - 1000; x[1].d = double(gen(64)) / 8; x[3].d = double(gen(4096)) / 64;
                size_t len = gen(longStrings ? 20 : 9);
                while (x[2].s.size() < len) x[2].s += char('a' + gen(26));
                bytes += strf("%g%s%g%s'%s'%s%.10g\n", x[0].d, d.c_str(), x[1].d, d.c_str(), x[2].s.c_str(), d.c_str(), x[3].d);
                f.rows.push_back(x);
            }
            s = {f};
            j.args = {"import", "-d", delim, IN, OUT};
            if (gen(3) == 0) {
                j.args.insert(j.args.begin() + 1, {"-sql", "select i, s, d where r < 4"});
                Frame g;
                g.cols = {f.cols[0], f.cols[2], f.cols[3]};
                for (auto& r : f.rows) if (r[1].d < 4) g.rows.push_back({r[0], r[2], r[3]});
                j.want = {g};
            }
            else j.want = {f};
            break;
        }
        case T_INDEX: {
            // a few runs of seqno
            s.clear();
            Frame w;
            for (const char* n : {"block_begin", "block_length", "seqno", "n_rows"}) w.cols.push_back(numCol(n, ref::INTEGER));
            int nf = 1 + int(gen(4));
            for (int k = 0; k < nf; k++) {
                Frame f;
                f.cols = {numCol("x", ref::DOUBLE), numCol("seqno", ref::INTEGER)};
                if (gen(2)) std::swap(f.cols[0], f.cols[1]);
                size_t q = size_t(f.find("seqno"));
                int n = int(gen(8));
                double seq = gen(5);
                for (int r = 0; r < n; r++) { if (gen(3) == 2) seq = double(gen(6)) - 1; Row x(2); x[q].d = seq; x[1 - q].d = double(gen(50)); f.rows.push_back(x); }
                f.swap = gen(5) == 4;
                ref::chooseCodecs(f, false);
                s.push_back(f);
            }
            bytes = ref::encode(s);
            for (auto& f : s) {
                size_t q = size_t(f.find("seqno"));
                for (size_t r = 0; r < f.rows.size();) {
                    size_t e = r;
                    while (e < f.rows.size() && f.rows[e][q].d == f.rows[r][q].d) e++;
                    Row x(4);
                    x[0].d = double(f.off); x[1].d = double(f.len); x[2].d = f.rows[r][q].d; x[3].d = double(e - r);
                    w.rows.push_back(x);
                    r = e;
                }
            }
            j.want = {w};
            j.args = {"index", IN, OUT};
            break;
        }
        case T_COUNT: j.args = {"count", IN}; j.print = true; j.text = strf("%zu\n", rows(s)); j.exactText = true; if (gen(3) == 2) { j.args.push_back(IN); j.text = strf("%zu\n", 2 * rows(s)); } break;
        case T_LS: j.args = {"ls", IN}; j.print = true; break;
        case T_LSFILE: j.args = {"ls", IN, "-o", OUT}; break;
        case T_HEADER: j.args = {"header", IN}; if (gen(2)) j.args.insert(j.args.begin() + 1, "-ddl"); j.print = true; break;
        case T_OFFSETS: {
            j.args = {"header", "-offsets", IN};
            j.print = true;
            bytes = ref::encode(s);
            for (auto& f : s) j.text += strf("%zu %zu %zu %zu\n", f.off, f.len, f.rows.size(), f.cols.size());
            j.exactText = true;
            break;
        }
        case T_COMPARE: case T_DIFFER: {
            j.args = {"compare", IN, IN2};
            // the same rows in other frames
            for (auto& f : s) {
                size_t cut = f.rows.size() > 1 && gen(3) == 0 ? 1 + gen(uint32_t(f.rows.size() - 1)) : f.rows.size();
                Frame g = f, h = f;
                g.rows.resize(cut);
                h.rows.erase(h.rows.begin(), h.rows.begin() + long(cut));
                j.b.push_back(g);
                if (cut < f.rows.size()) j.b.push_back(h);
            }
            // the strings may have more room in one than in the other
            for (auto& f : j.b) {
                recode(f);
                for (size_t c = 0; c < f.cols.size(); c++) {
                    auto& k = f.cols[c];
                    if (!k.isStr() || k.codec.find("int") != 0 || gen(3)) continue;
                    if (k.table.size() == (k.codec == "int8_string" ? 255 : 65535)) continue;
                    std::string room(size_t(k.width) * 8 + 1 + gen(12), 'w');
                    k.table.push_back(room);
                    k.width = int((room.size() + 7) / 8);
                }
            }
            if (j.kind == T_COMPARE && gen(3) == 0) {
                // what is different in the excluded column does not matter
                Col* k = someCol(s, [](const Col& c) { return c.type != ref::BITFIELD; });
                if (k) {
                    for (auto& f : j.b) { for (auto& r : f.rows) { auto& v = r[size_t(f.find(k->name))]; if (k->isStr()) v.s = ref::genString(int(f.cols[size_t(f.find(k->name))].width) * 8); else v.d = double(gen(50)); } recode(f); }
                    j.args = {"compare", "-excludeColumns", k->name, IN, IN2};
                }
            }
            if (j.kind == T_DIFFER) {
                j.exit = 1;
                if (rows(s) == 0) return false;
                size_t n = gen(uint32_t(rows(s))), k = 0;
                bool done = false;
                int how = int(gen(5));
                std::vector<std::pair<size_t, size_t>> flags;
                for (size_t i = 0; i < j.b.size(); i++) if (!j.b[i].rows.empty()) for (size_t c = 0; c < j.b[i].cols.size(); c++) if (!j.b[i].cols[c].bits.empty()) flags.push_back({i, c});
                if (how == 4 && !flags.empty()) {                   // other members, or members of another size
                    auto& at = flags[gen(uint32_t(flags.size()))];
                    auto& bits = j.b[at.first].cols[at.second].bits;
                    auto& bit = bits[gen(uint32_t(bits.size()))];
                    if (gen(2)) bit.second++; else bit.first += "2";
                    done = true;
                }
                else if (how == 4) how = 2;
                if (how == 3 && (rows(s) == 0 || s[0].cols.empty())) how = 2;
                if (how == 3) {
                    // the same values in a column of another name or type, from some frame on
                    std::vector<size_t> has;
                    for (size_t i = 0; i < j.b.size(); i++) if (!j.b[i].rows.empty()) has.push_back(i);
                    Frame& f = j.b[has[gen(uint32_t(has.size()))]];
                    Col& c = f.cols[gen(uint32_t(f.cols.size()))];
                    if (gen(2) && (c.type == ref::REAL || c.type == ref::DOUBLE)) c.type = c.type == ref::REAL ? ref::DOUBLE : ref::REAL;
                    else c.name = "other_" + c.name;
                    done = true;
                }
                for (auto& f : j.b) {
                    if (done || k + f.rows.size() <= n) { k += f.rows.size(); continue; }
                    auto& r = f.rows[n - k];
                    size_t c = gen(uint32_t(f.cols.size()));
                    if (how == 0) { f.rows.erase(f.rows.begin() + long(n - k)); }                     // a row less
                    else if (how == 1) { f.rows.insert(f.rows.begin() + long(n - k), r); }           // a row more
                    else if (f.cols[c].isStr() && gen(2) && !r[c].s.empty()) { auto& t = r[c].s; if (t.size() < size_t(f.cols[c].width) * 8 && gen(2)) t += 'q'; else if (gen(2)) t.pop_back(); else t.back() = t.back() == 'q' ? 'r' : 'q'; }
                    else if (f.cols[c].isStr()) { if (r[c].s.empty()) r[c].s = "q"; else r[c].s[0] = r[c].s[0] == 'q' ? 'r' : 'q'; }
                    else r[c].d = f.cols[c].type == ref::BITFIELD ? (r[c].d == 1 ? 0 : 1) : r[c].d == 77 ? 78 : 77;
                    done = true;
                    if (how < 2) {   // the same rows with one of equal neighbours missing or doubled are as many rows less or more
                    }
                    recode(f);
                }
            }
            break;
        }
        case T_XYV: {
            s.clear();
            Frame f;
            f.cols = {numCol("lat", ref::REAL), numCol("lon", ref::REAL), numCol("v", ref::INTEGER)};
            int n = 1 + int(gen(10));
            for (int r = 0; r < n; r++) { Row x(3); x[0].d = double(gen(90)); x[1].d = double(gen(180)); x[2].d = gen(1000); f.rows.push_back(x); j.text += strf("%g\t%g\t%g\n", x[0].d, x[1].d, x[2].d); }
            ref::chooseCodecs(f, false);
            s.push_back(f);
            j.args = {"xyv", IN, "v", OUT};
            break;
        }
    }
    j.out = j.kind <= T_INDEX || j.kind == T_LSFILE || j.kind == T_XYV;
    j.odb = j.kind <= T_INDEX && j.kind != T_SQLTEXT;
    j.a = s;
    if (bytes.empty()) bytes = ref::encode(j.a);
    j.in.push_back({IN, bytes});
    if (!j.b.empty()) j.in.push_back({IN2, ref::encode(j.b)});
    for (auto& x : j.scripts) j.in.push_back(x);
    return true;
}
// Does the output hold what it should?
void judge(const Job& j, const Res& r) {
    std::string l = j.line();
    SIM_CHECK(r.rc == j.exit || (j.exit && r.rc > 0), j.exit ? "difference-missed" : "refused", "%s: exit %d: %s", l.c_str(), r.rc, r.log.c_str());
    for (auto& f : j.in) SIM_CHECK(vfs::get(f.first) == f.second, "input-changed", "%s: %s has changed", l.c_str(), f.first.c_str());
    if (j.exactText) { std::string t = results(j, r.printed); SIM_CHECK(t == j.text, "wrong", "%s prints '%s', want '%s'", l.c_str(), t.c_str(), j.text.c_str()); }
    if (j.odb) {
        SIM_CHECK(r.hasOut, "no-output", "%s: there is no output", l.c_str());
        ref::Decoded d = ref::decode(r.out);
        SIM_CHECK(d.ok, "no-odb", "%s: the output is no ODB: %s", l.c_str(), d.error.c_str());
        CmpOpts o;
        o.zeroSign = false;                    // 0 and -0 become one constant
        if (j.kind == T_SQL) o.bits = false;   // eckit keeps the bitfields of the first frame
        o.props = j.frames; o.width = false;
        std::string x = j.frames ? diffStream(j.want, d.frames, false, o) : diffRows(j.want, d.frames, false, o);
        SIM_CHECK(x.empty(), "wrong", "%s: %s", l.c_str(), x.c_str());
    }
    if (j.kind == T_SQLTEXT || j.kind == T_LSFILE || j.kind == T_LS) {
        std::string t = j.kind == T_LS ? results(j, r.printed) : r.out;
        size_t lines = size_t(std::count(t.begin(), t.end(), '\n')), n = rows(j.kind == T_SQLTEXT ? j.want : j.a);
        SIM_CHECK(lines >= n, "wrong", "%s: %zu lines for %zu rows", l.c_str(), lines, n);
    }
    if (j.kind == T_XYV) SIM_CHECK(r.out.size() >= j.text.size() && r.out.compare(r.out.size() - j.text.size(), std::string::npos, j.text) == 0, "wrong", "%s: '%s', want '%s'", l.c_str(), r.out.c_str(), j.text.c_str());
}
void logJob(const Job& j) {
    log("%s", j.line().c_str());
    ref::logStream("in", j.a);
    if (!j.b.empty()) ref::logStream("in2", j.b);
}
}

SCENARIO(X01, tools, 4) {
    Job j;
    if (!makeJob(j)) return;
    logJob(j);
    fresh(j);
    Res r = runJob(j);
    judge(j, r);
    std::string sig = j.args[0];
    for (auto& f : j.a) { sig += strf("/%zu", f.rows.size()); for (auto& c : f.cols) sig += char('0' + c.type * 3 + c.width); }
    state(fnv(sig.data(), sig.size(), uint64_t(j.kind)));
}

SCENARIO(X01, faults, 6) {
    Job j;
    if (!makeJob(j)) return;
    logJob(j);
    fresh(j);
    vfs::countOps();
    Res first = runJob(j);
    judge(j, first);
    bool twoIn = j.in.size() - j.scripts.size() > 1;
    enum { F_IN, F_CUT, F_OUT, F_FULL, F_PRINT };
    std::vector<int> kinds{F_IN};
    if (j.kind != T_IMPORT) kinds.push_back(F_CUT);   // text may end anywhere
    if (j.out) { kinds.push_back(F_OUT); kinds.push_back(F_FULL); }
    if (j.print) kinds.push_back(F_PRINT);
    int kind = kinds[flt(uint32_t(kinds.size()))];
    std::string what;
    Job q = j;
    long printFails = -1;
    static const int errs[] = {EIO, ENOMEM, EACCES, ENOSPC};
    std::vector<vfs::Fault> faults;
    uint64_t cap = ~0ull;
    auto place = [&](const char* path, int mask) {
        uint64_t n = vfs::ops(mask, path);
        if (n == 0) return false;
        vfs::Fault f{mask, path, flt(uint32_t(n)), flt(2) ? ~0ull : 1, vfs::ERR, errs[flt(3)], 0};
        faults.push_back(f);
        what = strf("%s: operation %llu fails %s", path, (unsigned long long)f.at, f.times == 1 ? "once" : "from then on");
        return true;
    };
    bool honest = false;
    switch (kind) {
        case F_IN: if (!place(!j.scripts.empty() && flt(2) ? j.scripts[flt(uint32_t(j.scripts.size()))].first.c_str() : twoIn && flt(2) ? IN2 : IN, vfs::OPEN | vfs::READ | vfs::SEEK)) return; break;
        case F_OUT: if (!place(OUT, vfs::OPEN | vfs::WRITE | vfs::READ | vfs::CLOSE)) return; break;
        case F_CUT: {
            size_t i = twoIn && flt(2) ? 1 : 0;
            auto& s = i ? j.b : j.a;
            auto& bytes = q.in[i].second;
            size_t n = flt(3) == 0 ? s[flt(uint32_t(s.size()))].off : flt(uint32_t(bytes.size()));
            n = std::min(n, bytes.size() - 1);
            bytes.resize(n);
            for (auto& f : s) honest |= f.off == n;
            what = strf("%s ends at byte %zu", q.in[i].first.c_str(), n);
            break;
        }
        case F_FULL: cap = flt(uint32_t(first.out.size() + 1)); what = strf("the disk has room for %llu bytes", (unsigned long long)cap); break;
        case F_PRINT: printFails = long(flt(uint32_t(first.printed.size() + 1))); what = strf("printing fails at byte %ld", printFails); break;
    }
    if (honest) return;                        // just another input
    log("%s", what.c_str());
    fresh(q);
    for (auto& f : faults) vfs::addFault(f);
    uint64_t before = vfs::faultsFired();
    if (kind == F_FULL) vfs::capacity(vfs::used() + cap, now() + 300ull * 1000000000ull);
    Res r = runJob(q, printFails);
    vfs::capacity(~0ull);
    bool met = vfs::faultsFired() > before || kind == F_CUT || kind == F_FULL || kind == F_PRINT;
    vfs::clearFaults();
    SIM_CHECK(r.rc >= 0 && r.rc < 126, "crash", "%s: %s: exit %d: %s", j.line().c_str(), what.c_str(), r.rc, r.log.c_str());
    count(r.rc ? "reported" : met ? "survived" : "not-met");
    for (auto& f : q.in) SIM_CHECK(vfs::get(f.first) == f.second, "input-changed", "%s: %s; %s has changed", j.line().c_str(), what.c_str(), f.first.c_str());
    if (j.exit) { SIM_CHECK(r.rc != 0, "difference-missed", "%s: %s, and the files are said to be equal", j.line().c_str(), what.c_str()); }
    else if (r.rc == 0) {
        // n.b. what is left of the longer input when the shorter one ends is of no interest to merge
        SIM_CHECK(kind != F_CUT || j.kind == T_MERGE || j.kind == T_MERGESQL, "failure-not-reported", "%s: %s, and yet success is reported", j.line().c_str(), what.c_str());
        SIM_CHECK(!j.out || r.out == first.out, "failure-not-reported", "%s: %s, and yet success is reported, with an output of %zu bytes instead of %zu", j.line().c_str(), what.c_str(), r.out.size(), first.out.size());
        SIM_CHECK(!j.print || results(j, r.printed) == results(j, first.printed), "failure-not-reported", "%s: %s, and yet success is reported: '%s', not '%s'", j.line().c_str(), what.c_str(), r.printed.c_str(), first.printed.c_str());
    }
    else SIM_CHECK(met, "refused", "%s: %s, was not met and yet: exit %d: %s", j.line().c_str(), what.c_str(), r.rc, r.log.c_str());
    fresh(j);
    Res again = runJob(j);
    judge(j, again);
    state(fnv(what.data(), what.size(), uint64_t(j.kind)));
}
