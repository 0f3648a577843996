// Reference model of ODB-2 data and an independent encoder/decoder of the file format.
// Shares no code with odc or eckit.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include "core.h"

namespace ref {

enum Type { IGNORE = 0, INTEGER = 1, REAL = 2, STRING = 3, BITFIELD = 4, DOUBLE = 5 };
const char* typeName(int t);

constexpr double INT_MDI = 2147483647.0;
constexpr double REAL_MDI = -2147483647.0;

struct Col {
    std::string name;
    int type = INTEGER;
    std::vector<std::pair<std::string, int>> bits;
    double missing = INT_MDI;
    // encoding (chosen by the generator, or as found by the reference decoder)
    std::string codec;
    double mn = 0, mx = 0;
    int hasMissing = 0;
    std::vector<std::string> table;
    int width = 1;              // strings: 8-byte words per value as decoded
    bool isStr() const { return type == STRING; }
    bool sameShape(const Col& o) const { return name == o.name && type == o.type && bits == o.bits && width == o.width; }
};
struct Cell {
    double d = 0;
    std::string s;
    bool operator==(const Cell& o) const;      // bitwise for numbers
    bool operator!=(const Cell& o) const { return !(*this == o); }
};
using Row = std::vector<Cell>;
struct Frame {
    std::vector<Col> cols;
    std::vector<Row> rows;
    std::map<std::string, std::string> props;
    bool swap = false;
    int minor = 5;
    // positions in the encoded stream
    size_t off = 0, len = 0, headerLen = 0;     // headerLen: from off to the first data byte
    int find(const std::string& n) const { for (size_t i = 0; i < cols.size(); i++) if (cols[i].name == n) return int(i); return -1; }
};
using Stream = std::vector<Frame>;

std::string md5hex(const void* p, size_t n);

// Encodes the frame; markers are drawn (GEN tape) among the legal start columns.
std::string encode(Frame& f);
std::string encode(Stream& s);                  // fills in off/len

struct Decoded { Stream frames; bool ok = true; std::string error; size_t clean = 0; };   // clean: bytes of complete frames
Decoded decode(const std::string& bytes);

// ---------------------------------------------------------------- generators
struct GenOpts {
    int maxFrames = 4, maxRows = 12, maxCols = 6, minCols = 1;
    int minFrames = 1, minRows = 0;
    bool swap = true;               // other-endian frames allowed
    bool strings = true;
    bool wide = true;               // strings longer than 8 bytes
    bool texty = false;             // many long strings
    bool props = true;
    int missings = 2;               // now and then a missing value of a column's own (1), and another one from some frame on (2)
    bool widen = true;              // strings may get longer than those of the frames before
    bool sameCols = false;          // all frames have the same columns
    bool writerLike = false;        // only codecs the writer itself would produce
    bool big = false;               // now and then a frame of hundreds of columns, or of hundreds of rows with as many strings
    int compatibleBias = 60;        // percent chance that a frame repeats the columns of the previous one
};
Stream genStream(const GenOpts& o);
std::vector<Col> genColumns(const GenOpts& o);
Cell genValue(const Col& c);                     // any value storable in the column's type
void chooseCodecs(Frame& f, bool writerLike);
std::string genName(int i);
std::string genString(int maxLen);

std::string show(const Col& c, const Cell& v);
std::string show(const Stream& s);
void logStream(const char* what, const Stream& s);
}
