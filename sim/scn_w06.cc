// W06 Splitting conserves rows whatever the limit on open files.
#include <errno.h>
#include <algorithm>
#include <cstring>
#include <map>
#include "odc/DispatchingWriter.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/tools/SplitTool.h"
#include "wgen.h"
using namespace sim;
using namespace hn;

int odc_tool_main(int argc, char* argv[]);

namespace {
struct Key { std::string name, asked; int type; std::vector<ref::Cell> pool; int width = 1; };
struct Item { const ref::Frame* f; const ref::Row* r; };
using Outputs = std::map<std::string, std::vector<Item>>;

struct Case {
    ref::Stream s;                        // what the input holds
    std::string bytes, tmpl;
    std::vector<Key> keys;
    std::vector<std::pair<std::string, int>> pieces;      // text, then the key that follows it (-1: none)
    std::string nameOf(const ref::Frame& f, const ref::Row& r) const {
        std::string n;
        for (auto& p : pieces) {
            n += p.first;
            if (p.second < 0) continue;
            int c = f.find(keys[size_t(p.second)].name);
            const ref::Cell& v = r[size_t(c)];
            if (f.cols[size_t(c)].isStr()) {
                std::string t;
                for (char ch : v.s) { if (ch < 32 || ch > 126) break; t += ch; }
                while (!t.empty() && t.back() == ' ') t.pop_back();
                while (!t.empty() && t[0] == ' ') t.erase(0, 1);
                std::string u;
                for (char ch : t) { if (ch == '/') u += "__SLASH__"; else u += ch; }
                n += u;
            } else n += strf("%d", int(v.d));
        }
        return n;
    }
    Outputs expected() const {
        Outputs o;
        for (auto& f : s) for (auto& r : f.rows) o[nameOf(f, r)].push_back({&f, &r});
        return o;
    }
    size_t rows() const { size_t n = 0; for (auto& f : s) n += f.rows.size(); return n; }
};
Key genKey(int i) {
    Key k;
    k.name = strf("key%d", i);
    k.asked = k.name;
    if (gen(3) == 2) { k.name += "@hdr"; if (gen(2)) k.asked = k.name; }
    static const int types[] = {ref::INTEGER, ref::STRING, ref::REAL, ref::DOUBLE, ref::BITFIELD};
    k.type = types[gen(5)];
    static const double iv[] = {0, 1, 2, 7, -1, 11, 111, 300, 70000, -70000, ref::INT_MDI, -2147483646.0, 12, 21};
    static const double rv[] = {0, 1, 2, 0.5, 0.25, -0.5, 1.5, 1.25, -1.5, 3, ref::REAL_MDI, 1e6, 255.75, -0.0};
    static const char* sv[] = {"a", "b", "a/b", "", "ab", "a b", " a", "a ", "aa", "x.y", "ABCDEFGH", "ABCDEFG", "a\tb", "#1"};
    static const char* wv[] = {"longname", "longname1", "longname2", "longname1234567", "longname12345678", "a", "a/b/c/d/e/f/g/h", "long name", "longname  ", "longname 1"};
    if (k.type == ref::STRING && gen(3) == 2) k.width = 2 + int(gen(2));
    int n = 1 + int(gen(thorough() ? 12 : 8));
    for (int j = 0; j < n; j++) {
        ref::Cell c;
        if (k.type == ref::STRING) c.s = k.width > 1 ? wv[gen(10)] : sv[gen(14)];
        else if (k.type == ref::INTEGER) c.d = iv[gen(14)];
        else if (k.type == ref::BITFIELD) c.d = fabs(iv[gen(9)]);
        else c.d = rv[gen(14)];
        k.pool.push_back(c);
    }
    return k;
}
Case genCase(bool sameCols, bool plain) {
    Case c;
    int nk = 1 + int(gen(2));
    for (int i = 0; i < nk; i++) c.keys.push_back(genKey(i));
    ref::GenOpts go;
    go.maxCols = 3;
    go.maxRows = 1;
    go.maxFrames = thorough() ? 7 : 5;
    go.sameCols = sameCols;
    go.widen = !sameCols || plain;
    go.missings = !sameCols ? 2 : plain ? 0 : 1;
    go.props = false;
    c.s = ref::genStream(go);
    int runs = int(gen(3));
    std::vector<size_t> cur(size_t(nk), 0);
    std::vector<size_t> at(size_t(nk), 0);
    for (size_t fi = 0; fi < c.s.size(); fi++) {
        auto& f = c.s[fi];
        if (plain) for (auto& col : f.cols) if (!col.isStr()) col.missing = col.type == ref::REAL || col.type == ref::DOUBLE ? ref::REAL_MDI : ref::INT_MDI;
        for (int i = 0; i < nk; i++) {
            ref::Col k;
            auto& key = c.keys[size_t(i)];
            k.name = key.name;
            k.type = key.type;
            k.width = key.width;
            k.missing = k.isStr() ? 0 : k.type == ref::REAL || k.type == ref::DOUBLE ? ref::REAL_MDI : ref::INT_MDI;
            if (k.type == ref::BITFIELD) k.bits = {{"x", 3}, {"y", 6}};
            if (fi == 0 || (!sameCols && gen(5) == 4)) at[size_t(i)] = gen(uint32_t(f.cols.size() + 1));       // where the key stands
            f.cols.insert(f.cols.begin() + long(std::min(at[size_t(i)], f.cols.size())), k);
        }
        int n = int(gen(thorough() ? 24 : 14));
        f.rows.assign(size_t(n), ref::Row());
        for (auto& r : f.rows) {
            for (int i = 0; i < nk; i++) if (runs == 0 || gen(runs == 1 ? 2 : 5) == 1) cur[size_t(i)] = gen(uint32_t(c.keys[size_t(i)].pool.size()));
            for (auto& col : f.cols) {
                int k = -1;
                for (int i = 0; i < nk; i++) if (c.keys[size_t(i)].name == col.name) k = i;
                r.push_back(k >= 0 ? c.keys[size_t(k)].pool[cur[size_t(k)]] : ref::genValue(col));
            }
        }
        ref::chooseCodecs(f, false);
    }
    c.bytes = ref::encode(c.s);
    ref::Decoded d = ref::decode(c.bytes);
    if (!d.ok) harnessError("%s", d.error.c_str());
    c.s = d.frames;                                        // values as stored
    if (sameCols) for (size_t i = 0; i < c.s[0].cols.size(); i++) {
        int w = 0;
        for (auto& f : c.s) w = std::max(w, f.cols[i].width);
        for (auto& f : c.s) f.cols[i].width = w;
    }
    static const char* tails[] = {".odb", "", "_x"};
    int shape = int(gen(5));
    auto piece = [&](const std::string& t, int k) { c.pieces.push_back({t, k}); c.tmpl += t; if (k >= 0) c.tmpl += "{" + c.keys[size_t(k)].asked + "}"; };
    if (nk == 1) { piece(shape == 4 ? "/sim/" : "/sim/out_", 0); if (shape == 3) piece("-", 0); }
    else if (shape < 2) { piece("/sim/out_", 0); piece("_", 1); }
    else if (shape == 2) { piece("/sim/out_", 1); piece("", 0); }         // different values may give one name
    else if (shape == 3) { piece("/sim/out_", 1); }
    else { piece("/sim/o", 0); piece("x", 1); piece("x", 0); }
    piece(shape == 4 && nk == 1 ? ".odb" : tails[gen(3)], -1);
    return c;
}
// The rows of one output against the items it should hold; "" when they agree.
std::string diffOutput(const std::vector<Item>& want, const std::string& bytes, bool exactTail = true) {
    ref::Decoded d = ref::decode(bytes);
    if (!d.ok && exactTail) return "is not a valid stream: " + d.error;
    size_t k = 0;
    for (auto& f : d.frames)
        for (auto& r : f.rows) {
            if (k == want.size()) return strf("has more than its %zu rows", want.size());
            const Item& w = want[k];
            std::string x = wr::diffCols(w.f->cols, f.cols);
            if (!x.empty()) return strf("row %zu: %s", k, x.c_str());
            for (size_t i = 0; i < f.cols.size(); i++) {
                if (!wr::same(w.f->cols[i], (*w.r)[i], r[i])) return strf("row %zu column %s is %s, want %s", k, f.cols[i].name.c_str(), ref::show(f.cols[i], r[i]).c_str(), ref::show(w.f->cols[i], (*w.r)[i]).c_str());
                if (!f.cols[i].isStr() && f.cols[i].missing != w.f->cols[i].missing) return strf("row %zu column %s: missing value %g, want %g", k, f.cols[i].name.c_str(), f.cols[i].missing, w.f->cols[i].missing);
            }
            k++;
        }
    if (k != want.size() && exactTail) return strf("has %zu rows, want %zu", k, want.size());
    return "";
}
void checkAll(const char* what, const Case& c, const Outputs& want, const std::map<std::string, std::string>& before, bool append) {
    auto have = vfs::list("/sim/");
    for (auto& kv : want) {
        std::string b = vfs::get(kv.first);
        if (!vfs::exists(kv.first)) violation("output-missing", "%s: no output '%s' for %zu rows", what, kv.first.c_str(), kv.second.size());
        auto old = before.find(kv.first);
        if (append && old != before.end()) {
            SIM_CHECK(b.compare(0, old->second.size(), old->second) == 0, "earlier-damaged", "%s: what '%s' held before has changed", what, kv.first.c_str());
            b.erase(0, old->second.size());
        }
        std::string x = diffOutput(kv.second, b);
        if (!x.empty() && verbose()) { ref::Decoded d = ref::decode(b); ref::logStream("got", d.frames); }
        SIM_CHECK(x.empty(), "output", "%s: '%s' %s", what, kv.first.c_str(), x.c_str());
    }
    for (auto& p : have) {
        if (want.count(p) || p == "/sim/in.odb") continue;
        auto old = before.find(p);
        if (old == before.end()) violation("extra-output", "%s: there is a file '%s' no row belongs to", what, p.c_str());
        SIM_CHECK(vfs::get(p) == old->second, "bystander", "%s: '%s' has changed, no row belongs to it", what, p.c_str());
    }
    SIM_CHECK(vfs::get("/sim/in.odb") == c.bytes, "input-changed", "%s: the input has changed", what);
}
std::map<std::string, std::string> earlierFiles(const Outputs& want) {
    std::map<std::string, std::string> m;
    if (gen(3) != 2) return m;
    for (auto& kv : want)
        if (gen(2)) {
            ref::GenOpts go;
            go.maxFrames = 2;
            go.maxRows = 4;
            ref::Stream s = ref::genStream(go);
            m[kv.first] = ref::encode(s);
        }
    m["/sim/other.odb"] = "not ours";
    return m;
}
void fresh(const Case& c, const std::map<std::string, std::string>& before) {
    for (auto& p : vfs::list("/sim/")) vfs::remove(p);
    vfs::put("/sim/in.odb", c.bytes);
    for (auto& kv : before) vfs::put(kv.first, kv.second);
}
enum { R_PASS, R_ROWS, R_FUNC, R_SORT, R_SQL, R_N };
const char* routeName(int r) { static const char* n[] = {"pass1", "row by row", "split", "presorted split", "select into"}; return n[r]; }
struct Plan { int route = 0; int limit = 1; bool append = false, verify = false; unsigned long flushAt = 0; };

// Splits; throws when an operation reports a failure.
void split(const Case& c, const Plan& p) {
    vfs::peakHandles(true);
    size_t base = vfs::openHandles();
    switch (p.route) {
        case R_PASS: {
            odc::Reader in("/sim/in.odb");
            odc::DispatchingWriter out(c.tmpl, p.limit, p.append);
            odc::DispatchingWriter::iterator it(out.begin());
            (**it).property("made", "by split");
            unsigned long n = it->pass1(in.begin(), in.end());
            SIM_CHECK(n == c.rows(), "row-count", "%lu rows reported, the input has %zu", n, c.rows());
            it->close();
            if (p.verify) { odc::Reader again("/sim/in.odb"); (**it).verify(again); }
            break;
        }
        case R_ROWS: {
            odc::DispatchingWriter out(c.tmpl, p.limit, p.append);
            odc::DispatchingWriter::iterator it(out.begin());
            bool first = true;
            size_t k = 0;
            for (auto& f : c.s) {
                if (first) {
                    it->setNumberOfColumns(f.cols.size());
                    for (size_t i = 0; i < f.cols.size(); i++) {
                        auto& col = f.cols[i];
                        eckit::sql::BitfieldDef b;
                        for (auto& x : col.bits) { b.first.push_back(x.first); b.second.push_back(x.second); }
                        if (col.type == ref::BITFIELD) it->setBitfieldColumn(i, col.name, odc::api::BITFIELD, b);
                        else it->setColumn(i, col.name, odc::api::ColumnType(col.type));
                        if (col.isStr()) it->columns()[i]->dataSizeDoubles(size_t(col.width)); else it->missingValue(i, col.missing);
                    }
                    it->writeHeader();
                    first = false;
                }
                size_t width = 0;
                for (auto& col : f.cols) width += size_t(col.width);
                std::unique_ptr<double[]> row(new double[width]);
                for (auto& r : f.rows) {
                    size_t at = 0;
                    for (size_t i = 0; i < f.cols.size(); i++) { wr::put(reinterpret_cast<char*>(&row[at]), f.cols[i], r[i], false, false); at += size_t(f.cols[i].width); }
                    if (k++ % 2) { if ((**it).writeRow(row.get(), f.cols.size())) throw std::runtime_error("writeRow"); }
                    else { memcpy(it->data(), row.get(), width * 8); ++it; }
                }
            }
            it->close();
            break;
        }
        case R_FUNC: odc::tool::SplitTool::split(eckit::PathName("/sim/in.odb"), c.tmpl, size_t(p.limit), p.verify); break;
        case R_SORT: odc::tool::SplitTool::presortAndSplit(eckit::PathName("/sim/in.odb"), c.tmpl); break;
        case R_SQL: {
            odc::Select sel("select * into \"" + c.tmpl + "\" from \"/sim/in.odb\"");
            for (auto i = sel.begin(), e = sel.end(); i != e; ++i) {}
            break;
        }
    }
    size_t limit = p.route == R_SORT ? 1 : p.route == R_SQL ? 100 : size_t(p.limit);
    size_t peak = vfs::peakHandles();
    SIM_CHECK(peak <= base + limit + 2, "too-many-open", "%s: %zu files were open at the same time, the limit is %zu", routeName(p.route), peak - base, limit);
}
bool oneToOne(const Case& c) {
    std::map<std::string, std::string> m;
    for (auto& f : c.s) for (auto& r : f.rows) {
        std::string v;
        for (auto& k : c.keys) { auto& x = r[size_t(f.find(k.name))]; v += k.type == ref::STRING ? x.s + std::string(1, 0) : strf("%a;", x.d); }
        auto i = m.emplace(c.nameOf(f, r), v);
        if (i.first->second != v) return false;
    }
    return true;
}
Plan genPlan() {
    Plan p;
    p.route = int(gen(R_N));
    static const int limits[] = {1, 2, 3, 4, 7, 250};
    p.limit = limits[gen(6)];
    p.append = (p.route == R_PASS || p.route == R_ROWS) && gen(4) == 3;
    p.verify = (p.route == R_PASS || p.route == R_FUNC) && gen(2) && !p.append;
    return p;
}
}

SCENARIO(W06, split, 6) {
    eckitInit();
    wr::apply(wr::Env());
    Plan p = genPlan();
    Case c = genCase(p.route == R_ROWS || p.route == R_SQL, p.route == R_SORT || p.route == R_SQL);
    Outputs want = c.expected();
    auto before = earlierFiles(want);
    fresh(c, before);
    log("%s limit %d append %d verify %d template %s, %zu rows to %zu outputs, %zu earlier files", routeName(p.route), p.limit, p.append, p.verify, c.tmpl.c_str(), c.rows(), want.size(), before.size());
    ref::logStream("in", c.s);
    if (c.rows() == 0) return;
    if (p.route == R_SORT && !oneToOne(c)) return;         // rows of different values in one output are then in the order of the values
    std::string what;
    bool fine = guarded([&] { split(c, p); }, what);
    SIM_CHECK(fine, "refused", "%s: a valid input was refused: %s", routeName(p.route), what.c_str());
    checkAll(routeName(p.route), c, want, before, p.append);
    SIM_CHECK(vfs::openHandles() == 0, "left-open", "%s: %llu files are still open", routeName(p.route), (unsigned long long)vfs::openHandles());
    std::string sig;
    for (auto& f : c.s) for (auto& r : f.rows) sig += char('a' + std::distance(want.begin(), want.find(c.nameOf(f, r))) % 20);
    state(fnv(sig.data(), std::min<size_t>(sig.size(), 12), uint64_t(p.route * 1000 + p.limit)));
}

// The command, in a process of its own.
namespace {
int tool(std::vector<std::string> args, std::string* out) {
    return subprocess([&] {
        std::vector<char*> argv;
        args.insert(args.begin(), "odc");
        for (auto& a : args) argv.push_back(&a[0]);
        argv.push_back(nullptr);
        return odc_tool_main(int(args.size()), argv.data());
    }, out);
}
}
SCENARIO(W06, command, 2) {
    bool sort = gen(4) == 3;
    Case c = genCase(false, sort);
    Outputs want = c.expected();
    auto before = earlierFiles(want);
    if (c.rows() == 0 || (sort && !oneToOne(c))) return;
    fresh(c, before);
    std::vector<std::string> args{"split"};
    static const char* limits[] = {"1", "2", "3", "5"};
    if (sort) args.push_back("-sort");
    if (gen(2)) { args.push_back("-maxopenfiles"); args.push_back(limits[gen(4)]); }
    if (gen(3) == 2) args.push_back("-no_verification");
    args.push_back("/sim/in.odb");
    args.push_back(c.tmpl);
    std::string line, out;
    for (auto& a : args) line += a + " ";
    log("odc %s", line.c_str());
    ref::logStream("in", c.s);
    int rc = tool(args, &out);
    SIM_CHECK(rc == 0, "refused", "odc %s: exit %d: %s", line.c_str(), rc, out.c_str());
    checkAll("odc split", c, want, before, false);
    std::string sig;
    for (auto& f : c.s) for (auto& r : f.rows) sig += char('a' + std::distance(want.begin(), want.find(c.nameOf(f, r))) % 20);
    state(fnv(sig.data(), std::min<size_t>(sig.size(), 12), args.size()));
}

// Something fails while splitting.
SCENARIO(W06, faults, 3) {
    eckitInit();
    wr::apply(wr::Env());
    Plan p = genPlan();
    Case c = genCase(p.route == R_ROWS || p.route == R_SQL, p.route == R_SORT || p.route == R_SQL);
    Outputs want = c.expected();
    if (c.rows() == 0 || (p.route == R_SORT && !oneToOne(c))) return;
    std::map<std::string, std::string> before;
    if (p.append) before = earlierFiles(want);
    fresh(c, before);
    std::string what;
    vfs::countOps();
    bool fine = guarded([&] { split(c, p); }, what);
    SIM_CHECK(fine, "refused", "%s: a valid input was refused: %s", routeName(p.route), what.c_str());
    checkAll(routeName(p.route), c, want, before, p.append);
    // one failure among the operations made
    static const int kinds[] = {vfs::WRITE, vfs::WRITE, vfs::OPEN, vfs::CLOSE, vfs::SYNC, vfs::READ};
    static const int errs[] = {EIO, EDQUOT, EMFILE, EBADF};
    vfs::Fault f{kinds[flt(6)], "", 0, 1, vfs::ERR, errs[flt(4)], 0};
    if (f.ops == vfs::SYNC) f.err = EIO;
    else if (f.ops == vfs::CLOSE && p.route != R_SORT && flt(3) == 2) f.path = "/sim/in.odb";
    else if (f.ops == vfs::READ) f.path = "/sim/in.odb";
    else if (flt(3)) { auto i = want.begin(); std::advance(i, long(flt(uint32_t(want.size())))); f.path = i->first; }
    if (f.ops == vfs::CLOSE && f.path.empty() && p.route == R_SORT) f.path = "/sim/o";    // eckit's pool of part files cannot report a failing close of the input
    uint64_t n = vfs::ops(f.ops, f.path);
    if (!n) return;
    f.at = flt(uint32_t(n));
    static const uint64_t times[] = {1, 2, ~0ull};
    f.times = times[flt(3)];
    if (f.ops == vfs::WRITE && flt(4) == 3) { f.act = vfs::SHORT; f.arg = flt(1000); }
    log("%s limit %d append %d template %s; trouble: %s %s '%s' at %llu of %llu x%llu", routeName(p.route), p.limit, p.append, c.tmpl.c_str(), vfs::opName(f.ops), f.act == vfs::ERR ? strerror(f.err) : "short", f.path.c_str(),
        (unsigned long long)f.at, (unsigned long long)n, (unsigned long long)f.times);
    fresh(c, before);
    vfs::addFault(f);
    bool good = guarded([&] { split(c, p); }, what);
    vfs::clearFaults();
    log("%s", good ? "not reported" : "reported");
    vfs::quiet(true);
    if (good) checkAll("a split that reported success", c, want, before, p.append);
    else {
        // nothing but rows which belong there, in order, and what was there before
        for (auto& kv : want) {
            std::string b = vfs::get(kv.first);
            auto old = before.find(kv.first);
            if (p.append && old != before.end()) { SIM_CHECK(b.compare(0, old->second.size(), old->second) == 0, "earlier-damaged", "what '%s' held before the append has changed", kv.first.c_str()); b.erase(0, old->second.size()); }
            // rows that failed to be written may be missing before ones written later by close
            std::string x = diffOutput(kv.second, b, false);
            SIM_CHECK(x.empty() , "not-a-prefix", "after \"%s\" '%s' %s", what.c_str(), kv.first.c_str(), x.c_str());
        }
        SIM_CHECK(vfs::get("/sim/in.odb") == c.bytes, "input-changed", "the input has changed");
    }
    vfs::quiet(false);
    state(uint64_t(p.route * 10000 + f.ops * 10 + good));
    fresh(c, before);
    fine = guarded([&] { split(c, p); }, what);
    SIM_CHECK(fine, "retry-refused", "%s: after a failure the same input is refused: %s", routeName(p.route), what.c_str());
    checkAll("the split after a failure", c, want, before, p.append);
}

// The verification of a split notices an output that is not right.
SCENARIO(W06, verify, 1) {
    eckitInit();
    wr::apply(wr::Env());
    Case c = genCase(false, false);
    Outputs want = c.expected();
    if (c.rows() == 0) return;
    fresh(c, {});
    Plan p;
    p.limit = 1 + int(gen(4));
    std::string what;
    bool tampered = false;
    auto victim = want.begin();
    std::advance(victim, long(gen(uint32_t(want.size()))));
    int how = int(gen(4));
    bool fine = guarded([&] {
        odc::Reader in("/sim/in.odb");
        odc::DispatchingWriter out(c.tmpl, p.limit);
        odc::DispatchingWriter::iterator it(out.begin());
        it->pass1(in.begin(), in.end());
        it->close();
        ref::Decoded d = ref::decode(vfs::get(victim->first));
        if (!d.ok) violation("output", "'%s': %s", victim->first.c_str(), d.error.c_str());
        size_t k = gen(uint32_t(d.frames.size()));
        auto& f = d.frames[k];
        size_t r = gen(uint32_t(f.rows.size()));
        switch (how) {
            case 0: f.rows.erase(f.rows.begin() + long(r)); tampered = true; break;
            case 1: f.rows.insert(f.rows.begin() + long(r), f.rows[r]); tampered = true; break;
            case 2: d.frames.erase(d.frames.begin() + long(k)); tampered = true; break;
            case 3: {
                size_t i = gen(uint32_t(f.cols.size()));
                if (f.cols[i].isStr()) { if (f.rows[r][i].s.empty()) break; f.rows[r][i].s[0] = f.rows[r][i].s[0] == 'q' ? 'r' : 'q'; tampered = true; }
                else if (f.cols[i].type == ref::INTEGER || f.cols[i].type == ref::BITFIELD) { double v = f.rows[r][i].d; f.rows[r][i].d = v > 100 ? v - 50 : v + 50; tampered = true; }
                break;
            }
        }
        ref::Stream s;
        for (auto& x : d.frames) if (!x.rows.empty()) {
            ref::Frame y = x;
            ref::chooseCodecs(y, true);
            for (int k = 0; k < 40 && y.rows != x.rows; k++) { y = x; ref::chooseCodecs(y, true); }      // characters longer than 8 are cut
            if (y.rows != x.rows) { tampered = false; return; }
            x = y;
            s.push_back(x);
        }
        vfs::quiet(true);
        vfs::put(victim->first, ref::encode(s));
        vfs::quiet(false);
        log("limit %d, '%s' tampered %d how %d", p.limit, victim->first.c_str(), tampered, how);
        odc::Reader again("/sim/in.odb");
        (**it).verify(again);
    }, what);
    state(uint64_t(how * 10 + fine));
    if (tampered) SIM_CHECK(!fine, "unnoticed", "verification accepts '%s' after %s", victim->first.c_str(), how == 0 ? "a row was removed" : how == 1 ? "a row was repeated" : how == 2 ? "a frame was removed" : "a value was changed");
    else SIM_CHECK(fine, "refused", "verification refuses a correct output: %s", what.c_str());
}
