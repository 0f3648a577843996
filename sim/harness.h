// Ways of delivering bytes to odc and of reading them back through its public interfaces.
#pragma once
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>
#include "core.h"
#include "model.h"
#include "alloc.h"
#include "vfs.h"
#include "eckit/io/DataHandle.h"
#include "odc/api/ColumnInfo.h"
#include "odc/api/Odb.h"
#include "odc/api/odc.h"

// A call into the library: only allocations made in here can be made to fail, and are looked for afterwards.
#define LIB(...) ([&]() -> decltype(auto) { sim::alloc::Scope lib_; return (__VA_ARGS__); }())

namespace hn {

// ------------------------------------------------------------------ a source or sink under the simulator's control
enum How { H_READERROR = 0, H_STDEXC = 1, H_MINUS1 = 2, H_EOF = 3, H_INT = 4, H_SHORT = 5, H_NHOWS = 6 };
const char* howName(int h);

struct HandlePlan {
    bool seekable = true;         // seek()/position() work; otherwise they throw as the base class does
    bool estimate = true;         // estimate() reports the size; otherwise 0
    int chunk = 0;                // 0 whole; n>0 at most n bytes per read; -1 seeded sizes
    long failAtCall = -1;         // the n-th data call (read or write), counting from 0, fails
    long failAtByte = -1;         // the call that reaches this byte fails (bytes before it are delivered)
    long failTimes = 1;           // how many consecutive calls
    int how = H_READERROR;
    bool failFlush = false, failClose = false;
};
// Owned jointly by the handles cloned from one another, and by the scenario.
struct HandleState {
    std::string data;             // what is read, or what was written
    HandlePlan plan;
    uint64_t calls = 0;           // data calls made so far
    uint64_t failures = 0;        // failing calls made so far
    long failPos = -1;            // position of the first failing call
    uint64_t opens = 0, closes = 0, flushes = 0;
    uint64_t maxCall = 0;
    bool concurrent = false;      // let the race detector watch accesses
    int inUse = 0;
    int failThread = -1;          // the thread (sched::self()) that met the last failing call
};
using State = std::shared_ptr<HandleState>;

class SimHandle : public eckit::DataHandle {
public:
    explicit SimHandle(State s) : s_(s) {}
    void print(std::ostream& o) const override { o << "SimHandle"; }
    eckit::Length openForRead() override;
    void openForWrite(const eckit::Length&) override;
    void openForAppend(const eckit::Length&) override;
    long read(void*, long) override;
    long write(const void*, long) override;
    void close() override;
    void flush() override;
    eckit::Length estimate() override;
    eckit::Length size() override { return estimate(); }
    eckit::Offset position() override;
    eckit::Offset seek(const eckit::Offset&) override;
    bool canSeek() const override { return s_->plan.seekable; }
    void rewind() override { pos_ = 0; }
    void skip(const eckit::Length& l) override { pos_ += size_t((long long)l); }
    eckit::DataHandle* clone() const override { return new SimHandle(s_); }
    std::string title() const override { return "SimHandle"; }
    std::string name() const override { return "SimHandle"; }
private:
    bool failing(size_t len, size_t& allowed);
    void touch(bool w);
    State s_;
    size_t pos_ = 0;
};

// ------------------------------------------------------------------ reading
enum Api { A_C = 0, A_CAGG, A_CXX, A_CXXAGG, A_TABLES, A_ROWS, A_SQL, A_NAPIS };
enum Delivery { D_PATH = 0, D_HANDLE, D_SIM, D_FD, D_BUFFER, D_STREAM, D_NDELIVERIES };
const char* apiName(int);
const char* deliveryName(int);
bool usable(Api a, Delivery d);
inline bool aggregated(Api a) { return a == A_CAGG || a == A_CXXAGG; }

struct ReadPlan {
    Api api = A_CXX;
    Delivery how = D_PATH;
    long limit = -1;              // aggregation limit
    int threads = 1;
    int layout = 0;               // 0 row-major, 1 column-major, 2 padded strides
    bool longs = false;           // integers as longs (process-wide setting)
    HandlePlan plan;              // D_SIM, D_STREAM
    std::string path = "/sim/in.odb";
    bool headersOnly = false;     // do not decode
    bool damaged = false;         // the bytes were damaged: no cross-checks between two descriptions of them
    std::string describe() const;
};
struct Got {
    ref::Stream frames;
    bool error = false;
    std::string what;
    size_t calls = 0;             // data calls made on the source where it is ours
    size_t failures = 0;
    long failPos = -1;
    bool moreAfterEnd = false;    // a second call after the end did not report the end again
};
// Puts the bytes where the delivery needs them and reads all of them.
Got readAll(const ReadPlan& p, const std::string& bytes);

ref::Frame decodeFrame(const odc::api::Frame& f, int threads, int layout, bool longs);
ref::Frame describeFrame(const odc::api::Frame& f);

// ------------------------------------------------------------------ expectations
ref::Stream aggregate(const ref::Stream& s, long limit);       // the logical frames of a stream
bool compatible(const ref::Frame& a, const ref::Frame& b);
ref::Stream dropEmpty(const ref::Stream& s);
void selected(ref::Frame& f);                    // as a query gives it: what is missing is the missing value of the type
ref::Stream expected(const ReadPlan& p, const ref::Stream& s);

struct CmpOpts { bool props = true; bool bits = true; bool width = true; bool codecs = false; bool zeroSign = true; bool anyOrder = false; };   // zeroSign: 0 and -0 are different; anyOrder: columns of a row are matched by name
std::string diffFrame(const ref::Frame& want, const ref::Frame& got, const CmpOpts& o = CmpOpts());
// "" if got equals want; with prefix, got may be shorter
std::string diffStream(const ref::Stream& want, const ref::Stream& got, bool prefix = false, const CmpOpts& o = CmpOpts());
// the same rows in order, columns compared per row; frame boundaries ignored
std::string diffRows(const ref::Stream& want, const ref::Stream& got, bool prefix = false, const CmpOpts& o = CmpOpts());

void settings(bool longs);
void cInit();                                    // odc_initialise_api once
void drawDelivery(ReadPlan& p);                  // GEN: api, delivery, chunking, limit, layout, threads
std::string stripEncoder(ref::Stream& s);        // removes the "encoder" property the encoder adds

template <class F> bool guarded(F f, std::string& what) {
    try { f(); return true; }
    catch (std::exception& e) { what = e.what(); return false; }
    catch (int) { what = "int"; return false; }
}
}
