// W01 Rows accepted by the row writer are read back exactly, in order.
#include <algorithm>
#include <cstring>
#include "odc/ODBAPISettings.h"
#include "odc/Reader.h"
#include "odc/Writer.h"
#include "odc/odccapi.h"
#include "wgen.h"
using namespace sim;
using namespace hn;

namespace {
using WI = odc::WriterBufferingIterator;
typedef std::map<std::string, std::string> Props;

// What the client has told the writer so far.
struct Segment { std::vector<ref::Col> cols; std::vector<ref::Row> rows; std::vector<size_t> props; };   // props: number of property changes made when a row was accepted
struct Model {
    std::vector<Segment> segs;
    std::vector<Props> props{Props()};
    size_t accepted() const { size_t n = 0; for (auto& s : segs) n += s.rows.size(); return n; }
};

void setMissing(std::vector<ref::Col>& cols) {
    for (auto& c : cols) {
        if (c.isStr() || gen(4) != 3) continue;
        static const double im[] = {-1, 0, 7, 255, 65535, -32768}, rm[] = {0, -999.5, 1e10, 0.1, 12.25, -1e30};
        c.missing = (c.type == ref::INTEGER || c.type == ref::BITFIELD) ? im[gen(6)] : rm[gen(6)];
        if (c.type == ref::BITFIELD && c.missing < 0) c.missing = 0;
    }
}
eckit::sql::BitfieldDef bits(const ref::Col& c) {
    eckit::sql::BitfieldDef b;
    for (auto& x : c.bits) { b.first.push_back(x.first); b.second.push_back(x.second); }
    return b;
}
// The same description through setColumn & co or through a MetaData.
void describe(WI& w, const std::vector<ref::Col>& cols, bool first, bool legacy) {
    int how = int(gen(3));
    if (legacy) {                          // the interface below the Fortran one
        oda_write_iterator_ptr p = &w;
        if (!first) odb_write_iterator_set_no_of_columns(p, 0);
        odb_write_iterator_set_no_of_columns(p, int(cols.size()));
        for (size_t i = 0; i < cols.size(); i++) {
            std::string names, sizes;
            for (auto& b : cols[i].bits) { names += b.first + ":"; sizes += strf("%d:", b.second); }
            if (cols[i].type == ref::BITFIELD) odb_write_iterator_set_bitfield(p, int(i), cols[i].type, cols[i].name.c_str(), names.c_str(), sizes.c_str());
            else odb_write_iterator_set_column(p, int(i), cols[i].type, cols[i].name.c_str());
            if (cols[i].isStr()) odb_write_iterator_set_column_size_doubles(p, int(i), cols[i].width);
            else odb_write_iterator_set_missing_value(p, int(i), cols[i].missing);
        }
        odb_write_iterator_write_header(p);
        int words = 0, at = 0, off = 0;
        for (auto& c : cols) words += c.width;
        odb_write_iterator_get_row_buffer_size_doubles(p, &at);
        SIM_CHECK(at == words, "row-size", "a row takes %d words, the writer says %d", words, at);
        for (size_t i = 0; i < cols.size(); i++) {
            odb_write_iterator_get_column_offset(p, int(i), &at);
            SIM_CHECK(at == off, "row-size", "column %zu starts at word %d, the writer says %d", i, off, at);
            off += cols[i].width;
        }
        return;
    }
    if (how == 2) {
        odc::core::MetaData md;
        md.setSize(cols.size());
        for (size_t i = 0; i < cols.size(); i++) {
            md[i]->name(cols[i].name);
            md[i]->type<odc::core::SameByteOrder>(odc::api::ColumnType(cols[i].type));
            md[i]->dataSizeDoubles(size_t(cols[i].width));
            if (cols[i].type == ref::BITFIELD) md[i]->bitfieldDef(bits(cols[i]));
            if (!cols[i].isStr()) md[i]->missingValue(cols[i].missing);
        }
        w.columns(md);
        w.writeHeader();
        return;
    }
    if (!first || gen(2)) w.setNumberOfColumns(0);
    w.setNumberOfColumns(cols.size());
    std::map<std::string, size_t> later;
    for (size_t i = 0; i < cols.size(); i++) {
        if (cols[i].type == ref::BITFIELD) w.setBitfieldColumn(i, cols[i].name, odc::api::BITFIELD, bits(cols[i]));
        else w.setColumn(i, cols[i].name, odc::api::ColumnType(cols[i].type));
        if (!cols[i].isStr()) w.missingValue(i, cols[i].missing);
        else if (cols[i].width > 1) {
            if (how) later[cols[i].name] = size_t(cols[i].width);
            else w.columns()[i]->dataSizeDoubles(size_t(cols[i].width));
        }
    }
    w.writeHeader();
    if (!later.empty()) w.flushAndResetColumnSizes(later);
}
void legacyRead(const ref::Stream& frames, const std::string& bytes);
void checkOutput(const Model& m, const std::string& bytes, const wr::Env& e, bool headerProps) {
    ref::Decoded d = ref::decode(bytes);
    SIM_CHECK(d.ok, "not-odb", "the output is not a valid stream: %s", d.error.c_str());
    size_t seg = 0, row = 0, at = 0;      // at: rows before this frame
    for (size_t k = 0; k < d.frames.size(); k++) {
        ref::Frame& f = d.frames[k];
        while (seg < m.segs.size() && row == m.segs[seg].rows.size()) { seg++; row = 0; }
        SIM_CHECK(seg < m.segs.size(), "extra-rows", "frame %zu of %zu rows lies behind all %zu accepted rows", k, f.rows.size(), m.accepted());
        const Segment& s = m.segs[seg];
        std::string x = wr::diffCols(s.cols, f.cols);
        SIM_CHECK(x.empty(), "columns", "frame %zu (rows from %zu): %s", k, at, x.c_str());
        for (size_t i = 0; i < f.cols.size(); i++) if (f.cols[i].hasMissing && !f.cols[i].isStr())
            SIM_CHECK(f.cols[i].missing == s.cols[i].missing, "missing-value", "frame %zu column %s: missing value %g, the client set %g", k, f.cols[i].name.c_str(), f.cols[i].missing, s.cols[i].missing);
        SIM_CHECK(f.rows.size() <= s.rows.size() - row, "rows", "frame %zu has %zu rows, only %zu were accepted under its columns", k, f.rows.size(), s.rows.size() - row);
        ref::Frame want;
        want.cols = s.cols;
        want.rows.assign(s.rows.begin() + long(row), s.rows.begin() + long(row + f.rows.size()));
        x = wr::diffRows(want, f);
        SIM_CHECK(x.empty(), "values", "frame %zu (rows from %zu): %s", k, at, x.c_str());
        // a missing value is marked as such and nothing else is
        for (size_t i = 0; i < f.cols.size(); i++) {
            if (f.cols[i].isStr() || f.cols[i].hasMissing) continue;
            for (auto& r : want.rows) SIM_CHECK(r[i].d != s.cols[i].missing || f.cols[i].missing == s.cols[i].missing, "missing-lost", "frame %zu column %s: a missing value became an ordinary one", k, f.cols[i].name.c_str());
        }
        if (headerProps && !f.rows.empty()) {
            size_t lo = s.props[row + f.rows.size() - 1], hi = m.props.size() - 1;
            if (row + f.rows.size() < s.rows.size()) hi = s.props[row + f.rows.size()];
            else for (size_t t = seg + 1; t < m.segs.size(); t++) if (!m.segs[t].rows.empty()) { hi = m.segs[t].props[0]; break; }
            bool ok = false;
            for (size_t p = lo; p <= hi; p++) ok = ok || f.props == m.props[p];
            SIM_CHECK(ok, "properties", "frame %zu (rows from %zu) has %zu properties, not those set by the client", k, at, f.props.size());
        }
        row += f.rows.size();
        at += f.rows.size();
        for (auto& c : f.cols) { mix(fnv(c.codec.data(), c.codec.size())); state(fnv(c.codec.data(), c.codec.size(), uint64_t(c.type) * 16 + uint64_t(c.hasMissing))); }
    }
    SIM_CHECK(at == m.accepted(), "rows-lost", "%zu rows in the output, %zu were accepted", at, m.accepted());
    if (gen(3) == 2) legacyRead(d.frames, bytes);
    // and as the library reads it, under other settings perhaps
    wr::apply(e);
    ReadPlan p;
    drawDelivery(p);
    p.longs = e.longs;
    if (p.limit >= 0) { long n = 0; for (auto& f : d.frames) n = std::max(n, long(f.rows.size())); p.limit = std::max(p.limit, n); }
    if (p.api == A_SQL || p.api == A_ROWS) { p.api = A_CXX; p.how = D_PATH; }
    bool forwardOnly = p.how == D_STREAM || (p.how == D_SIM && !p.plan.seekable);
    log("%s", p.describe().c_str());
    Got g = readAll(p, bytes);
    if (g.error && aggregated(p.api) && forwardOnly) return;
    SIM_CHECK(!g.error, "refused", "reading back failed (%s): %s", p.describe().c_str(), g.what.c_str());
    ref::Stream want = expected(p, d.frames);
    CmpOpts o;
    o.zeroSign = false;
    std::string x = diffStream(want, g.frames, false, o);
    SIM_CHECK(x.empty(), "read-back", "%s: %s", p.describe().c_str(), x.c_str());
}
// The interface below the Fortran one: rows one by one, all with the same number of columns.
void legacyRead(const ref::Stream& frames, const std::string& bytes) {
    size_t ncols = 0, rows = 0;
    for (auto& f : frames) { if (ncols && f.cols.size() != ncols) return; ncols = f.cols.size(); rows += f.rows.size(); }
    if (!ncols) return;
    vfs::quiet(true);
    vfs::put("/sim/legacy.odb", bytes);
    vfs::quiet(false);
    wr::apply(wr::Env());
    int err = -1, v;
    oda_ptr o = odb_read_create("", &err);
    oda_read_iterator_ptr it = odb_create_read_iterator(o, "/sim/legacy.odb", &err);
    SIM_CHECK(it && !err, "legacy-read", "odb_create_read_iterator: %d", err);
    std::vector<double> buf(ncols * 64);
    size_t at = 0;
    for (auto& f : frames) {
        for (size_t r = 0; r < f.rows.size(); r++, at++) {
            int fresh = 0;
            int rc = odb_read_iterator_get_next_row(it, int(ncols), buf.data(), &fresh);
            SIM_CHECK(rc == 0, "legacy-read", "row %zu of %zu: %d", at, rows, rc);
            for (size_t i = 0; i < ncols; i++) {
                char* name = nullptr;
                int len = 0, type = 0, off = 0, words = 0;
                odb_read_iterator_get_column_name(it, int(i), &name, &len);
                odb_read_iterator_get_column_type(it, int(i), &type);
                odb_read_iterator_get_column_offset(it, int(i), &off);
                odb_read_iterator_get_column_size_doubles(it, int(i), &words);
                const ref::Col& c = f.cols[i];
                SIM_CHECK(std::string(name, size_t(len)) == c.name && type == c.type, "legacy-read", "row %zu column %zu: '%s' of type %d", at, i, name, type);
                ref::Cell got;
                if (c.isStr()) { const char* p = reinterpret_cast<const char*>(&buf[size_t(off)]); got.s = std::string(p, strnlen(p, size_t(words) * 8)); }
                else {
                    got.d = buf[size_t(off)];
                    double mv = 0;
                    odb_read_iterator_get_missing_value(it, int(i), &mv);
                    SIM_CHECK(mv == c.missing, "legacy-read", "row %zu column %s: missing value %g, want %g", at, c.name.c_str(), mv, c.missing);
                }
                if (c.type == ref::BITFIELD && r == 0) {
                    char *n = nullptr, *z = nullptr;
                    int nl = 0, zl = 0;
                    odb_read_iterator_get_bitfield(it, int(i), &n, &z, &nl, &zl);
                    std::string names, sizes;
                    for (auto& b : c.bits) { names += b.first + ":"; sizes += strf("%d:", b.second); }
                    SIM_CHECK(names == n && sizes == z, "legacy-read", "column %s: bitfield %s %s", c.name.c_str(), n, z);
                    free(n);
                    free(z);
                }
                SIM_CHECK(wr::same(c, f.rows[r][i], got), "legacy-read", "row %zu column %s: got %s, stored %s", at, c.name.c_str(), ref::show(c, got).c_str(), ref::show(c, f.rows[r][i]).c_str());
            }
        }
    }
    int fresh = 0;
    v = odb_read_iterator_get_next_row(it, int(ncols), buf.data(), &fresh);
    SIM_CHECK(v == 1, "legacy-read", "behind the last row: %d", v);
    odb_read_iterator_destroy(it);
    odb_read_destroy(o);
    count("legacy read");
}
void fillUnset(ref::Row& r, const std::vector<ref::Col>& cols) {
    for (size_t i = 0; i < cols.size(); i++) { r[i].d = cols[i].isStr() ? 0 : cols[i].missing; r[i].s.clear(); }
}

void history(int minOps, int maxOps, int maxRows, bool many) {
    eckitInit();
    wr::Env e = wr::genEnv(), e2 = gen(3) == 2 ? wr::genEnv() : e;
    e.longs = false;                       // the row writer takes doubles
    wr::apply(e);
    wr::Opts o;
    o.imiss = e.imiss; o.rmiss = e.rmiss;
    if (many) { o.maxCols = 3; }
    if (gen(2)) { static const size_t hb[] = {1, 8, 60, 64, 100, 128, 300, 1024}; odc::ODBAPISettings::instance().headerBufferSize(hb[gen(8)]); log("headerBufferSize %zu", odc::ODBAPISettings::instance().headerBufferSize()); }
    // what it writes to
    int sink = int(gen(6));
    static const char* sinks[] = {"path", "handle&", "handle*", "createWriteIterator", "legacy", "legacy append"};
    bool onPath = sink == 0 || sink >= 3, legacy = sink >= 4;
    auto st = std::make_shared<HandleState>();
    SimHandle sh(st);
    std::unique_ptr<odc::Writer<>> wtr;
    if (legacy) { int err = -1; wtr.reset(reinterpret_cast<odc::Writer<>*>(odb_writer_create("", &err))); SIM_CHECK(wtr && !err, "legacy", "odb_writer_create: %d", err); }
    else if (onPath) wtr.reset(new odc::Writer<>(eckit::PathName("/sim/out.odb")));
    else if (sink == 1) wtr.reset(new odc::Writer<>(sh));
    else wtr.reset(new odc::Writer<>(new SimHandle(st), true, true));
    unsigned long buffer = gen(6) == 5 ? 10000 : 1 + gen(many ? 40 : 9);
    int poolRows = many ? gen(3) == 2 ? 330 : 40 : 10;
    if (poolRows > 40 && gen(8)) buffer = 10000;
    wtr->rowsBufferSize(buffer);
    count(sinks[sink]);
    log("sink %s buffer %lu missing %g %g", sinks[sink], buffer, e.imiss, e.rmiss);
    std::string sig = strf("%d", sink), what;
    Model m;
    {
        int err = 0;
        odc::Writer<>::iterator it = sink == 4 ? odc::Writer<>::iterator(reinterpret_cast<WI*>(odb_create_write_iterator(wtr.get(), "/sim/out.odb", &err))) : sink == 5 ? odc::Writer<>::iterator(reinterpret_cast<WI*>(odb_create_append_iterator(wtr.get(), "/sim/out.odb", &err))) : sink == 3 ? odc::Writer<>::iterator(wtr->createWriteIterator(eckit::PathName("/sim/out.odb"))) : wtr->begin();
        WI& w = **it;
        SIM_CHECK(!err, "legacy", "write iterator: %d", err);
        int ops = minOps + int(gen(uint32_t(maxOps - minOps + 1)));
        ref::Row current;                  // what data() holds
        std::vector<ref::Row> pool;        // values to come
        size_t used = 0;
        bool fine = guarded([&] {
            for (int k = 0; k < ops; k++) {
                step();
                int op = m.segs.empty() ? 7 : int(gen(10));
                if (m.accepted() >= size_t(maxRows) && op < 5) op = 9;
                switch (op) {
                    case 0: case 1: case 2: case 3: case 4: {                // rows
                        Segment& s = m.segs.back();
                        int n = 1 + int(gen(s.cols.size() > 20 ? 2 : many ? 24 : 4));
                        if (poolRows > 40 && gen(3) == 2) n = 256 + int(gen(70));
                        if (op == 4) {                                           // whole rows from the client's own memory
                            size_t width = 0;
                            for (auto& c : s.cols) width += size_t(c.width);
                            std::unique_ptr<double[]> row(new double[width]);
                            for (int r = 0; r < n; r++) {
                                if (used == pool.size()) { ref::Frame f; f.cols = s.cols; wr::genRows(f, s.cols.size() > 20 ? 3 : poolRows, o); pool = f.rows; used = 0; }
                                ref::Row v = pool[used++];
                                size_t at = 0;
                                for (size_t i = 0; i < s.cols.size(); i++) { wr::put(reinterpret_cast<char*>(&row[at]), s.cols[i], v[i], false, false); at += size_t(s.cols[i].width); }
                                if (legacy) { int rc = odb_write_iterator_set_next_row(&w, row.get(), int(s.cols.size())); SIM_CHECK(rc == 0, "legacy", "odb_write_iterator_set_next_row: %d", rc); }
                                else w.writeRow(row.get(), s.cols.size());
                                s.rows.push_back(v);
                                s.props.push_back(m.props.size() - 1);
                            }
                        } else for (int r = 0; r < n; r++) {
                            if (used == pool.size()) { ref::Frame f; f.cols = s.cols; wr::genRows(f, s.cols.size() > 20 ? 3 : poolRows, o); pool = f.rows; used = 0; }
                            const ref::Row& v = pool[used++];
                            bool some = gen(4) == 3 && n < 256;
                            for (size_t i = 0; i < s.cols.size(); i++) {
                                if (some && gen(2)) continue;                    // left as it is
                                current[i] = v[i];
                                if (s.cols[i].isStr() || gen(2)) wr::put(reinterpret_cast<char*>(&it->data()[it->dataOffset(i)]), s.cols[i], v[i], false, false);
                                else it->data(i) = v[i].d;
                            }
                            ++it;
                            s.rows.push_back(current);
                            s.props.push_back(m.props.size() - 1);
                        }
                        log("%d rows by %s", n, op == 4 ? "writeRow" : "data()");
                        sig += "r";
                        break;
                    }
                    case 5: w.flush(); log("flush"); sig += "f"; break;
                    case 6: {
                        std::string key = std::string("key") + char('0' + gen(3)), val = ref::genString(20);
                        Props p = m.props.back();
                        p[key] = val;
                        m.props.push_back(p);
                        w.property(key, val);
                        log("property %s", key.c_str());
                        sig += "p";
                        break;
                    }
                    case 7: {                                                     // new columns
                        Segment s;
                        bool first = m.segs.empty();
                        s.cols = wr::genCols(o);
                        if (!first && gen(3) == 2) {                              // the same, but for details
                            s.cols = m.segs.back().cols;
                            for (auto& c : s.cols) if (c.type == ref::BITFIELD && gen(2)) c.bits.push_back({"extra", 1 + int(gen(5))});
                            if (gen(2) && s.cols.size() > 1) std::swap(s.cols[0], s.cols[s.cols.size() - 1]);
                        }
                        if (gen(24) == 23) { wr::Opts q = o; q.wide = false; q.maxCols = 600; s.cols = wr::genCols(q); }
                        for (size_t i = 0; i < s.cols.size(); i++) s.cols[i].missing = s.cols[i].isStr() ? 0 : s.cols[i].type == ref::REAL || s.cols[i].type == ref::DOUBLE ? e.rmiss : e.imiss;
                        setMissing(s.cols);
                        if (gen(2)) { if (!first) w.flush(); }
                        describe(w, s.cols, first, legacy);
                        m.segs.push_back(s);
                        pool.clear();
                        used = 0;
                        current.assign(s.cols.size(), ref::Cell());
                        fillUnset(current, s.cols);
                        log("header of %zu columns", s.cols.size());
                        sig += "h";
                        break;
                    }
                    case 8: {                                                     // other buffer size, wider strings, the header again
                        int x = int(gen(5));
                        if (x == 0) { size_t n = gen(12) == 11 ? 0 : 1 + gen(9); w.rowsBufferSize(n); log("rowsBufferSize %zu", n); sig += "b"; }
                        else if (x == 1) {
                            Segment s;
                            s.cols = m.segs.back().cols;
                            std::map<std::string, size_t> sizes;
                            for (auto& c : s.cols) if (c.isStr() && gen(2)) { c.width += 1 + int(gen(2)); sizes[c.name] = size_t(c.width); }
                            if (sizes.empty()) break;
                            w.flushAndResetColumnSizes(sizes);
                            m.segs.push_back(s);
                            pool.clear();
                            used = 0;
                            fillUnset(current, s.cols);
                            log("%zu columns are wider", sizes.size());
                            sig += "w";
                        } else if (x == 3) {                                     // another missing value from here on
                            Segment s;
                            s.cols = m.segs.back().cols;
                            size_t i = gen(uint32_t(s.cols.size()));
                            if (s.cols[i].isStr()) break;
                            static const double mv[] = {0, 3, -5, 200};
                            s.cols[i].missing = mv[gen(4)];
                            if (s.cols[i].type == ref::BITFIELD && s.cols[i].missing < 0) s.cols[i].missing = 1;
                            if (gen(2)) w.missingValue(i, s.cols[i].missing); else it->missingValue(i, s.cols[i].missing);
                            m.segs.push_back(s);
                            pool.clear();
                            used = 0;
                            log("missing value of %s is now %g", s.cols[i].name.c_str(), s.cols[i].missing);
                            sig += "m";
                        } else if (x == 4) {                                     // one column described anew, the others as they are
                            Segment s;
                            s.cols = m.segs.back().cols;
                            size_t i = gen(uint32_t(s.cols.size()));
                            ref::Col c = wr::other(s.cols[i], s.cols, o, e);
                            s.cols[i] = c;
                            if (c.type == ref::BITFIELD) w.setBitfieldColumn(i, c.name, odc::api::BITFIELD, bits(c)); else w.setColumn(i, c.name, odc::api::ColumnType(c.type));
                            if (!c.isStr()) w.missingValue(i, c.missing);
                            else if (c.width > 1) w.columns()[i]->dataSizeDoubles(size_t(c.width));
                            w.writeHeader();
                            m.segs.push_back(s);
                            pool.clear();
                            used = 0;
                            current.assign(s.cols.size(), ref::Cell());
                            fillUnset(current, s.cols);
                            log("column %zu is now %s of type %d", i, c.name.c_str(), c.type);
                            sig += "1";
                        } else { w.writeHeader(); fillUnset(current, m.segs.back().cols); log("writeHeader again"); sig += "H"; }
                        break;
                    }
                    case 9: {
                        Segment& s = m.segs.back();                               // what the client can see
                        for (size_t i = 0; i < s.cols.size(); i++) {
                            SIM_CHECK(it->columns()[i]->name() == s.cols[i].name && it->columns()[i]->type() == s.cols[i].type, "own-columns", "column %zu of the writer is not what was set", i);
                            if (!s.cols[i].isStr()) {
                                SIM_CHECK(it->missingValue(i) == s.cols[i].missing, "own-missing", "column %s: missing value %g, %g was set", s.cols[i].name.c_str(), it->missingValue(i), s.cols[i].missing);
                                double now = it->data(i);
                                SIM_CHECK(!memcmp(&now, &current[i].d, 8), "own-data", "column %s: data() holds %g, last set %g", s.cols[i].name.c_str(), now, current[i].d);
                            }
                        }
                        sig += "o";
                        break;
                    }
                }
            }
            switch (gen(4)) {
                case 0: log("destroy"); break;
                case 1: it->close(); log("close, destroy"); sig += "c"; break;
                case 2: w.flush(); log("flush, destroy"); sig += "F"; break;
                case 3: w.flush(); it->close(); log("flush, close, destroy"); sig += "C"; break;
            }
        }, what);
        SIM_CHECK(fine, "refused", "a valid history was refused: %s", what.c_str());
    }
    wtr.reset();
    std::string bytes = onPath ? vfs::get("/sim/out.odb") : st->data;
    log("%zu rows, %zu bytes", m.accepted(), bytes.size());
    mixBytes(bytes.data(), bytes.size());
    state(fnv(sig.data(), std::min<size_t>(sig.size(), 14)));
    checkOutput(m, bytes, e2, true);
}
}

SCENARIO(W01, history, 8) { history(4, thorough() ? 60 : 30, thorough() ? 160 : 80, false); }

SCENARIO(W01, bulk, 2) { history(6, 24, 400, true); }

// A reader's rows, all of them, through pass1.
SCENARIO(W01, copy, 3) {
    eckitInit();
    wr::Env e;
    ref::GenOpts go;
    go.maxRows = 14;
    go.big = true;
    go.maxFrames = 5;
    ref::Stream s = ref::genStream(go);
    if (gen(3) == 2) for (size_t k = 1; k < s.size(); k++)                        // neighbours that differ only in the members of a bitfield
        if (s[k].cols.size() == s[k - 1].cols.size()) for (auto& c : s[k].cols) if (c.type == ref::BITFIELD && gen(2)) c.bits = {{"x", 3}, {"y", 2}};
    if (gen(3) == 2) for (size_t k = 1; k < s.size(); k++) {                      // or in what stands for a missing value
        if (s[k].cols.size() != s[k - 1].cols.size()) continue;
        bool any = false;
        for (size_t i = 0; i < s[k].cols.size(); i++) {
            auto& c = s[k].cols[i];
            if (c.isStr() || gen(2)) continue;
            static const double mv[] = {0, 3, 200, 7};
            double was = c.missing;
            c.missing = mv[gen(4)];
            for (auto& r : s[k].rows) if (r[i].d == was) r[i].d = c.missing;
            any = true;
        }
        if (any) ref::chooseCodecs(s[k], false);
    }
    std::string in = ref::encode(s);
    ref::Decoded d0 = ref::decode(in);
    if (!d0.ok) harnessError("%s", d0.error.c_str());
    Model m;
    for (auto& f : d0.frames) {
        if (f.rows.empty()) continue;
        Segment g;
        g.cols = f.cols;
        g.rows = f.rows;
        g.props.assign(f.rows.size(), 0);
        // neighbours with the same description share output frames
        if (!m.segs.empty() && m.segs.back().cols.size() == g.cols.size()) {
            bool same = true;
            for (size_t i = 0; i < g.cols.size(); i++) same = same && g.cols[i].sameShape(m.segs.back().cols[i]) && (g.cols[i].isStr() || g.cols[i].missing == m.segs.back().cols[i].missing);
            if (same) { for (auto& r : g.rows) { m.segs.back().rows.push_back(r); m.segs.back().props.push_back(0); } continue; }
        }
        m.segs.push_back(g);
    }
    if (m.accepted() == 0) return;
    ref::logStream("in", s);
    vfs::quiet(true);
    vfs::put("/sim/in.odb", in);
    vfs::quiet(false);
    std::string what;
    unsigned long buffer = 1 + gen(20), n = 0;
    bool fine = guarded([&] {
        odc::Reader rd("/sim/in.odb");
        odc::Writer<> w("/sim/out.odb");
        w.rowsBufferSize(buffer);
        odc::Writer<>::iterator it = w.begin();
        n = it->pass1(rd.begin(), rd.end());
    }, what);
    SIM_CHECK(fine, "refused", "copying was refused: %s", what.c_str());
    SIM_CHECK(n == m.accepted(), "row-count", "%lu rows reported, the input has %zu", n, m.accepted());
    std::string bytes = vfs::get("/sim/out.odb");
    log("buffer %lu, %zu rows, %zu bytes", buffer, m.accepted(), bytes.size());
    state(uint64_t(m.segs.size()) * 100 + buffer);
    checkOutput(m, bytes, e, false);
}
