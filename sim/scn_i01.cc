// I01: text import takes every row or reports an error.
#include <cmath>
#include <cstring>
#include <istream>
#include <streambuf>
#include "harness.h"
#include "wgen.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/Writer.h"
#include "odc/csv/TextReader.h"
#include "odc/csv/TextReaderIterator.h"
int odc_tool_main(int, char**);
using namespace sim;
using namespace hn;
using ref::Col; using ref::Cell; using ref::Frame; using ref::Row; using ref::Stream;

namespace {
// ------------------------------------------------------------------ text
struct Text {
    Frame t;                          // what the text says
    std::string delim;
    std::string text;
    std::string bad;                  // what is wrong with it, if something is
    bool blank = false;               // it has a blank line among the data
};
bool white(const std::string& d) { return d == " " || d == "\t"; }
std::string pad(const std::string& d) { return white(d) ? "" : std::string(gen(4) == 3 ? 1 + gen(2) : 0, ' '); }

std::string headerOf(const Text& x, int bad, size_t at) {
    std::string h;
    for (size_t i = 0; i < x.t.cols.size(); i++) {
        const Col& c = x.t.cols[i];
        if (i) h += x.delim;
        h += c.name;
        static const char* names[][2] = {{"", ""}, {"INTEGER", "integer"}, {"REAL", "Real"}, {"STRING", "string"}, {"BITFIELD", "bitfield"}, {"DOUBLE", "double"}};
        std::string ty = names[c.type][gen(4) == 3];
        bool b = bad && i == at;
        if (b && bad == 1) continue;                                  // no type
        if (b && bad == 2) ty = "FLOAT8";                             // unknown
        h += ":" + ty;
        if (c.type == ref::BITFIELD) {
            if (b && bad == 3) continue;                              // no definition
            h += "[";
            for (size_t k = 0; k < c.bits.size(); k++) {
                h += (k ? ";" : "") + c.bits[k].first + ":";
                int n = c.bits[k].second;
                h += b && bad == 4 && k == 0 ? "0" : b && bad == 5 && k == 0 ? "x" : b && bad == 6 && k == 0 ? "32" : strf("%d", n);
            }
            if (b && bad == 7) h += ";" + c.bits[0].first + ":1";    // the same name twice
            h += "]";
        }
    }
    return h;
}
const char* nullText() { static const char* const T[] = {"NULL", "null", "Null", "nULL", "NuLl"}; size_t k = gen(8); return T[k < 4 ? 0 : k - 3]; }
std::string cellText(const Col& c, Cell& v, const std::string& delim) {
    if (c.isStr()) {
        if (v.s.empty() && gen(2)) return nullText();         // a string that is missing is empty
        bool q = v.s.empty() || v.s.front() == ' ' || v.s.back() == ' ' || gen(2);
        std::string u = v.s;
        for (auto& ch : u) ch = char(toupper(ch));
        if (u == "NULL") q = true;
        return q ? (gen(3) == 2 ? "\"" + v.s + "\"" : "'" + v.s + "'") : v.s;
    }
    if (v.d == c.missing) return nullText();
    if (c.type == ref::INTEGER || c.type == ref::BITFIELD) return strf(gen(6) == 5 && v.d >= 0 ? "+%.0f" : "%.0f", v.d);
    if (c.type == ref::REAL) { v.d = double(float(v.d)); return strf(gen(2) ? "%.9g" : "%.10e", v.d); }
    return strf(gen(2) ? "%.17g" : "%.17e", v.d);
}
Text genText(bool spoil) {
    Text x;
    wr::Opts o;
    o.maxRows = gen(6) == 5 ? 60 : 10;
    o.minRows = 0;
    o.special = false;
    o.props = false;
    x.t = wr::genTable(o);
    static const char* ds[] = {",", "\t", " ", "|", "~"};
    x.delim = ds[gen(3) ? 0 : gen(5)];
    for (auto& c : x.t.cols) { c.missing = c.type == ref::REAL || c.type == ref::DOUBLE ? ref::REAL_MDI : ref::INT_MDI; if (c.type == ref::BITFIELD && c.bits.empty()) c.bits = {{"f", 3}}; }
    for (auto& r : x.t.rows)
        for (size_t i = 0; i < r.size(); i++) {
            Col& c = x.t.cols[i];
            Cell& v = r[i];
            if (c.isStr()) {
                if (gen(8) == 7) v.s.clear();
                for (auto& ch : v.s) if (!isalnum((unsigned char)ch) && !strchr("_-.+:/ ()", ch)) ch = 'x';
                for (auto& ch : v.s) if (x.delim.find(ch) != std::string::npos) ch = '_';
            }
            else if (!std::isfinite(v.d) || (v.d != 0 && fabs(v.d) < 1e-30)) v.d = 1.5;
            else if (c.type == ref::REAL && fabs(v.d) > 1e37) v.d = -2.25;
        }
    // what is spoilt: 0 nothing; header 1..7; lines 8..
    int bad = 0;
    size_t badRow = 0, badCol = gen(uint32_t(x.t.cols.size()));
    if (spoil) {
        std::vector<int> can{1, 2};
        const Col& c = x.t.cols[badCol];
        if (c.type == ref::BITFIELD) for (int k = 3; k <= 7; k++) can.push_back(k);
        if (!x.t.rows.empty()) {
            for (int k = 8; k <= 9; k++) can.push_back(k);
            if (!white(x.delim)) can.push_back(10);
            if (!c.isStr()) { can.push_back(11); can.push_back(12); can.push_back(13); }
            if (c.type == ref::INTEGER || c.type == ref::BITFIELD) { can.push_back(14); can.push_back(15); }
            can.push_back(16);
        }
        bad = can[gen(uint32_t(can.size()))];
        if (bad >= 8) badRow = gen(uint32_t(x.t.rows.size()));
        if (bad == 8 && x.t.cols.size() == 1) bad = 9;
        static const char* what[] = {"", "a column without type", "an unknown type", "a bitfield without definition", "a bitfield of 0 bits", "a bitfield whose size is no number", "a bitfield of too many bits",
            "a bitfield with a name twice", "a value too few", "a value too many", "an empty value and one too many", "letters for a number", "letters after a number", "nothing for a number", "a fraction for an integer", "an integer too large", ""};
        x.bad = what[bad];
        x.blank = bad == 16;
    }
    std::string eol = "\n";
    x.text = headerOf(x, bad >= 1 && bad <= 7 ? bad : 0, badCol) + eol;
    for (size_t r = 0; r < x.t.rows.size(); r++) {
        std::string line;
        size_t n = x.t.cols.size();
        bool b = bad >= 8 && r == badRow;
        if (b && bad == 16) x.text += std::string(gen(3), ' ') + eol;
        if (b && bad == 8) n--;
        for (size_t i = 0; i < n; i++) {
            Cell& v = x.t.rows[r][i];
            std::string s = cellText(x.t.cols[i], v, x.delim);
            if (b && i == badCol) {
                static const char* junk[] = {"abc", "x1", "--5", "e"};
                static const char* tail[] = {"x", "-", ".5.5", "e5e"};
                if (bad == 11) s = junk[gen(4)];
                if (bad == 12) s = (strcasecmp(s.c_str(), "NULL") == 0 ? "12" : s) + tail[gen(4)];
                if (bad == 13) s = white(x.delim) ? "''" : "''";
                if (bad == 14) s = "1.5";
                if (bad == 15) s = gen(2) ? "99999999999999999999" : "-9223372036854775809";
            }
            if (b && bad == 10 && i == badCol) line += i ? x.delim : x.delim;       // an empty one before it
            line += (i ? x.delim : "") + pad(x.delim) + s + pad(x.delim);
        }
        if (b && bad == 9) line += x.delim + "7";
        if (b && bad == 10 && x.t.cols.size() > 0) {}
        x.text += line + (r + 1 == x.t.rows.size() && gen(3) == 2 ? "" : eol);
    }
    log("delimiter '%s'%s%s, %zu rows", x.delim.c_str(), x.bad.empty() ? "" : ", ", x.bad.c_str(), x.t.rows.size());
    note("text:\n%s", x.text.c_str());
    return x;
}

// ------------------------------------------------------------------ importing
enum Route { R_STRING, R_STREAM, R_SIM, R_FILE, R_MEMORY, R_READER, R_PATHREADER, R_TOOL, R_TOOLSQL, R_N };
const char* routeName(int r) { static const char* n[] = {"odbFromCSV(string)", "odbFromCSV(istream)", "odbFromCSV(handle)", "odbFromCSV(file)", "odbFromCSV(memory)", "TextReader(istream)", "TextReader(path)", "odc import", "odc import -sql"}; return n[r]; }

// A stream whose every fill is the simulator's choice, and may throw.
struct SrcBuf : std::streambuf {
    SimHandle& h;
    char b[64];
    explicit SrcBuf(SimHandle& s) : h(s) {}
    int underflow() override {
        if (gptr() < egptr()) return (unsigned char)*gptr();
        long n = h.read(b, sizeof b);
        if (n < 0) throw std::runtime_error("the stream reports an error");
        if (n == 0) return EOF;
        setg(b, b, b + n);
        return (unsigned char)*gptr();
    }
};
struct Plan {
    int route = 0;
    bool fileOut = false;
    int chunk = 0;
    size_t buffer = 10000;
    bool quotes = false;
};
struct Res {
    bool error = false;
    std::string what;
    long rows = -1;
    std::string out;
    uint64_t failures = 0;
};
const char* IN = "/sim/in.csv";
const char* OUT = "/sim/out.odb";

Res import(const Text& x, const Plan& p, const HandlePlan& inPlan, const HandlePlan& outPlan) {
    Res r;
    auto is = std::make_shared<HandleState>(), os = std::make_shared<HandleState>();
    is->data = x.text;
    is->plan = inPlan;
    is->plan.chunk = p.chunk;
    os->plan = outPlan;
    bool tools = p.route == R_TOOL || p.route == R_TOOLSQL;
    if (tools) {
        std::vector<std::string> args{"import"};
        std::string d = x.delim == "\t" ? (gen(2) ? "TAB" : "tab") : x.delim == " " ? "SPACE" : x.delim;
        if (x.delim != "," || gen(2)) { args.push_back("-d"); args.push_back(d); }
        if (p.route == R_TOOLSQL) { args.push_back("-sql"); args.push_back("select *"); }
        args.push_back(IN);
        args.push_back(OUT);
        int rc = subprocess([&] {
            std::vector<std::string> a = args;
            a.insert(a.begin(), "odc");
            std::vector<char*> argv;
            for (auto& s : a) argv.push_back(&s[0]);
            argv.push_back(nullptr);
            return odc_tool_main(int(a.size()), argv.data());
        }, &r.what);
        SIM_CHECK(rc >= 0, "killed", "odc import was ended by signal %d: %s", -rc, r.what.c_str());
        r.error = rc != 0;
        r.out = vfs::exists(OUT) ? vfs::get(OUT) : "";
        return r;
    }
    auto inside = [&](auto run) {
        if (!p.fileOut) { SimHandle sh(os); run(sh); return; }
        eckit::FileHandle fh(OUT);
        struct C { eckit::FileHandle& h; bool closed = false; ~C() { if (!closed) try { h.close(); } catch (...) {} } } c{fh};
        run(fh);
        c.closed = true;
        fh.close();
    };
    bool fine = guarded([&] {
        switch (p.route) {
            case R_STRING: inside([&](eckit::DataHandle& o) { r.rows = long(odc::api::odbFromCSV(x.text, o, x.delim)); }); break;
            case R_STREAM: inside([&](eckit::DataHandle& o) { SimHandle sh(is); SrcBuf sb(sh); std::istream in(&sb); r.rows = long(odc::api::odbFromCSV(in, o, x.delim)); }); break;
            case R_SIM: inside([&](eckit::DataHandle& o) { SimHandle sh(is); sh.openForRead(); r.rows = long(odc::api::odbFromCSV(sh, o, x.delim)); }); break;
            case R_FILE: inside([&](eckit::DataHandle& o) {
                eckit::FileHandle fh(IN);
                fh.openForRead();
                struct C { eckit::FileHandle& h; ~C() { try { h.close(); } catch (...) {} } } c{fh};
                r.rows = long(odc::api::odbFromCSV(fh, o, x.delim));
            }); break;
            case R_MEMORY: inside([&](eckit::DataHandle& o) {
                std::unique_ptr<char[]> exact(new char[x.text.size()]);
                memcpy(exact.get(), x.text.data(), x.text.size());
                eckit::MemoryHandle mh((const void*)exact.get(), x.text.size());
                mh.openForRead();
                r.rows = long(odc::api::odbFromCSV(mh, o, x.delim));
            }); break;
            default: inside([&](eckit::DataHandle& o) {
                SimHandle sh(is);
                SrcBuf sb(sh);
                std::istream in(&sb);
                odc::TextReader rd = p.route == R_READER ? odc::TextReader(in, x.delim) : odc::TextReader(std::string(IN), x.delim);
                odc::Writer<> w(o);
                w.rowsBufferSize(p.buffer);
                odc::Writer<>::iterator it(w.begin());
                r.rows = long(it->pass1(rd.begin(), rd.end()));
            }); break;
        }
    }, r.what);
    r.error = !fine;
    r.out = p.fileOut ? (vfs::exists(OUT) ? vfs::get(OUT) : "") : os->data;
    r.failures = is->failures + os->failures;
    return r;
}
// Is the output the table?  "" when it is.
std::string judge(const Text& x, const Res& r) {
    if (r.rows >= 0 && size_t(r.rows) != x.t.rows.size()) return strf("%ld rows are said to be imported, the text has %zu", r.rows, x.t.rows.size());
    ref::Decoded d = ref::decode(r.out);
    if (!d.ok) return "the output is no ODB: " + d.error;
    size_t at = 0;
    for (auto& f : d.frames) {
        std::string s = wr::diffCols(x.t.cols, f.cols);
        if (!s.empty()) return s;
        for (size_t i = 0; i < f.cols.size(); i++)
            if (!f.cols[i].isStr() && f.cols[i].missing != x.t.cols[i].missing) return strf("column %s has missing value %.17g", f.cols[i].name.c_str(), f.cols[i].missing);
        for (auto& row : f.rows) {
            if (at >= x.t.rows.size()) return strf("more than %zu rows", at);
            for (size_t c = 0; c < row.size(); c++)
                if (!wr::same(x.t.cols[c], x.t.rows[at][c], row[c])) return strf("row %zu column %s: %s, the text says %s", at, x.t.cols[c].name.c_str(), ref::show(f.cols[c], row[c]).c_str(), ref::show(x.t.cols[c], x.t.rows[at][c]).c_str());
            at++;
        }
    }
    if (at != x.t.rows.size()) return strf("%zu rows, the text has %zu", at, x.t.rows.size());
    return "";
}
Plan genPlan(bool mayTool) {
    Plan p;
    p.route = mayTool && gen(6) == 5 ? R_TOOL + int(gen(2)) : int(gen(R_TOOL));
    p.fileOut = p.route >= R_TOOL || gen(3) == 2;
    p.chunk = gen(2) ? (gen(3) ? -1 : 1 + int(gen(20))) : 0;
    p.buffer = gen(2) ? 10000 : 1 + gen(7);
    log("%s to %s, chunk %d, buffer %zu", routeName(p.route), p.fileOut ? "file" : "handle", p.chunk, p.buffer);
    return p;
}
void fresh(const Text& x) {
    vfs::format();
    vfs::put(IN, x.text);
}
bool isTool(const Plan& p) { return p.route >= R_TOOL; }
// integers as doubles or as longs: odbFromCSV does not depend on it
void prepare(const Plan& p) {
    wr::Env e;
    e.longs = p.route <= R_MEMORY && gen(4) == 3;
    if (!isTool(p)) { eckitInit(); wr::apply(e); }
}
void check(const char* when, const Text& x, const Plan& p, const Res& r) {
    SIM_CHECK(!r.error, when[0] == 'r' ? "retry" : "refused", "%s: a text without faults was refused: %s", routeName(p.route), r.what.c_str());
    std::string d = judge(x, r);
    SIM_CHECK(d.empty(), "wrong", "%s: %s", routeName(p.route), d.c_str());
    SIM_CHECK(vfs::openHandles() == 0, "left-open", "%s: %llu files are still open", routeName(p.route), (unsigned long long)vfs::openHandles());
}
}

SCENARIO(I01, import, 4) {
    Plan p = genPlan(true);
    prepare(p);
    Text x = genText(false);
    fresh(x);
    Res r = import(x, p, HandlePlan(), HandlePlan());
    check("first", x, p, r);
    std::string sig = x.delim;
    for (auto& c : x.t.cols) sig += char('0' + c.type * 5 + std::min(4, c.width));
    state(fnv(sig.data(), sig.size(), uint64_t(p.route * 100 + std::min<size_t>(x.t.rows.size(), 99))));
}

// A line that cannot be understood is an error; a blank one is none, but what follows it is not lost.
SCENARIO(I01, malformed, 3) {
    Plan p = genPlan(true);
    prepare(p);
    Text x = genText(true);
    fresh(x);
    Res r = import(x, p, HandlePlan(), HandlePlan());
    if (x.blank) {
        if (!r.error) { std::string d = judge(x, r); SIM_CHECK(d.empty(), "blank-line", "%s: with a blank line among the data: %s", routeName(p.route), d.c_str()); }
    }
    else SIM_CHECK(r.error, "misunderstood", "%s: a text with %s was imported without an error", routeName(p.route), x.bad.c_str());
    state(fnv(x.bad.data(), x.bad.size(), uint64_t(p.route)));
}

// Reading the text or writing the output fails.
SCENARIO(I01, faults, 4) {
    Plan p = genPlan(true);
    prepare(p);
    Text x = genText(false);
    fresh(x);
    vfs::countOps();
    Res r = import(x, p, HandlePlan(), HandlePlan());
    check("first", x, p, r);
    HandlePlan in, out;
    bool simIn = p.route == R_STREAM || p.route == R_SIM || p.route == R_READER;
    bool fileIn = p.route == R_FILE || p.route == R_PATHREADER || isTool(p);
    bool input = (simIn || fileIn) && flt(2) == 0;
    static const int errs[] = {EIO, ENOMEM, EACCES, EINTR, ENOSPC};
    std::string what;
    if (input && simIn) {
        in.failAtByte = long(flt(uint32_t(x.text.size() + 1)));
        in.failTimes = flt(2) ? 1000000 : 1;
        static const int hows[] = {H_READERROR, H_STDEXC, H_MINUS1};
        in.how = hows[flt(3)];
        what = strf("reading the text fails (%s) at byte %ld", howName(in.how), in.failAtByte);
    }
    else if (!input && !p.fileOut) {
        out.failAtByte = long(flt(uint32_t(r.out.size() + 1)));
        out.failTimes = flt(2) ? 1000000 : 1;
        static const int hows[] = {H_READERROR, H_STDEXC, H_MINUS1, H_SHORT};
        out.how = hows[flt(4)];
        what = strf("writing fails (%s) at byte %ld", howName(out.how), out.failAtByte);
    }
    else {
        const char* path = input ? IN : OUT;
        int mask = input ? vfs::OPEN | vfs::READ : vfs::OPEN | vfs::WRITE | vfs::CLOSE;
        uint64_t n = vfs::ops(mask, path);
        if (n == 0) return;
        vfs::Fault f{mask, path, flt(uint32_t(n)), flt(2) ? ~0ull : 1, vfs::ERR, errs[input ? flt(3) : flt(3)], 0};
        vfs::addFault(f);
        what = strf("%s: operation %llu fails %s", path, (unsigned long long)f.at, f.times == 1 ? "once" : "from then on");
    }
    log("%s", what.c_str());
    fresh(x);
    uint64_t before = vfs::faultsFired();
    Res q = import(x, p, in, out);
    bool met = q.failures > 0 || vfs::faultsFired() > before;
    count(q.error ? "reported" : met ? "survived" : "not-met");
    if (!q.error) {
        std::string d = judge(x, q);
        SIM_CHECK(d.empty(), "failure-not-reported", "%s: %s, and yet success is reported: %s", routeName(p.route), what.c_str(), d.c_str());
    }
    vfs::clearFaults();
    SIM_CHECK(vfs::openHandles() == 0, "left-open", "%s: %s; %llu files are still open", routeName(p.route), what.c_str(), (unsigned long long)vfs::openHandles());
    fresh(x);
    Res again = import(x, p, HandlePlan(), HandlePlan());
    check("retry", x, p, again);
    state(fnv(what.data(), what.size(), uint64_t(p.route)));
}
