// Tables as a writing client holds them, the settings in force, and the layouts of its arrays.
#pragma once
#include <memory>
#include "harness.h"
#include "odc/api/StridedData.h"
namespace wr {

struct Opts {
    int minRows = 1, maxRows = 12, maxCols = 5;
    bool strings = true, wide = true, props = true, special = true, longs = false;
    int minCols = 1;
    bool big = false;                 // as in ref::GenOpts
    bool simpleNames = false;         // no "@table" part
    double imiss = ref::INT_MDI, rmiss = ref::REAL_MDI;
};
std::vector<ref::Col> genCols(const Opts& o);
void genRows(ref::Frame& f, int n, const Opts& o);
std::map<std::string, std::string> genProps();
ref::Frame genTable(const Opts& o);
// Is got an acceptable reading of the value stored as in?
bool same(const ref::Col& c, const ref::Cell& in, const ref::Cell& got);
// columns (names, types, bits) and rows; "" when they agree
std::string diffCols(const std::vector<ref::Col>& want, const std::vector<ref::Col>& got);
std::string diffRows(const ref::Frame& want, const ref::Frame& got, size_t wantFrom = 0, size_t n = ~size_t(0), size_t gotFrom = 0);
ref::Frame join(const ref::Stream& s);          // all rows under the columns of the first frame
void put(char* at, const ref::Col& c, const ref::Cell& v, bool longs, bool junk);   // one value in a caller's array

// Caller arrays holding rows [0,n) of a table.
struct Arrays {
    std::vector<std::unique_ptr<char[]>> mem;
    std::vector<const char*> at;       // first value of each column
    std::vector<size_t> stride, size;
    std::vector<odc::api::ConstStridedData> strided(size_t n) const;
    int kind = 0;                      // 0 row-major, 1 column-major, 2 padded rows, 3 separate arrays with strides, 4 column-major 8-byte words
};
Arrays lay(const ref::Frame& f, int kind, bool longs);
std::vector<odc::api::ColumnInfo> infos(const ref::Frame& f);

struct Env { bool longs = false; double imiss = ref::INT_MDI, rmiss = ref::REAL_MDI; };
// another description for one column
ref::Col other(const ref::Col& was, const std::vector<ref::Col>& among, const Opts& opts, const Env& e);
Env genEnv();
void apply(const Env& e);
}
