From 55e37f7158378540e30533531b0daefe8f989875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 01/75] fix: clone codecs with the byte order of the original

Codec::clone always built the clone for the native byte order, so copying
the metadata of a frame written on a machine of the other byte order (as
aggregation and every Frame does) made the frame undecodable ("Mismatched
byte order between DataStream and Codec"). Clones also kept the default
missing value in the cast form used by integer codecs.
---
 src/odc/codec/String.h |  2 +-
 src/odc/core/Codec.cc  |  9 ---------
 src/odc/core/Codec.h   | 12 +++++++++++-
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index 5a5b71a..7881b4a 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -295,7 +295,7 @@ void CodecChars<ByteOrder>::save(core::DataStream<ByteOrder>& ds) {
 template <typename ByteOrder>
 std::unique_ptr<core::Codec> CodecChars<ByteOrder>::clone() {
 
-    std::unique_ptr<core::Codec> cdc = core::Codec::clone();
+    std::unique_ptr<core::Codec> cdc = core::DataStreamCodec<ByteOrder>::clone();
     auto& c                          = static_cast<CodecChars&>(*cdc);
     c.stringLookup_                  = stringLookup_;
     c.strings_                       = strings_;
diff --git a/src/odc/core/Codec.cc b/src/odc/core/Codec.cc
index 303e550..6b13088 100644
--- a/src/odc/core/Codec.cc
+++ b/src/odc/core/Codec.cc
@@ -29,15 +29,6 @@ Codec::Codec(const std::string& name, api::ColumnType type) :
     max_(missingValue_),
     type_(type) {}
 
-std::unique_ptr<Codec> Codec::clone() {
-    auto c           = CodecFactory::instance().build<SameByteOrder>(name_, type_);
-    c->hasMissing_   = hasMissing_;
-    c->missingValue_ = missingValue_;
-    c->min_          = min_;
-    c->max_          = max_;
-    return c;
-}
-
 Codec::~Codec() {}
 
 void Codec::setDataStream(GeneralDataStream& ds) {
diff --git a/src/odc/core/Codec.h b/src/odc/core/Codec.h
index 108c711..15e832a 100644
--- a/src/odc/core/Codec.h
+++ b/src/odc/core/Codec.h
@@ -38,7 +38,7 @@ public:
 
     /// Creates a clone of this codec. NOTE: the clone is not really usefull for coding/decoding, but has the same
     /// stats/missing values as the original codec, which can be useful sometimes.
-    virtual std::unique_ptr<Codec> clone();
+    virtual std::unique_ptr<Codec> clone() = 0;
 
     const std::string& name() const { return name_; }
 
@@ -132,6 +132,16 @@ public:  // methods
 
     DataStreamCodec(const std::string& name, api::ColumnType type) : Codec(name, type), ds_(0) {}
 
+    std::unique_ptr<Codec> clone() override {
+        // n.b. The clone must have the same byte order, as it may be used to decode the same data.
+        auto c = CodecFactory::instance().build<ByteOrder>(name_, type_);
+        c->missingValue(missingValue_);
+        c->hasMissing(hasMissing_);
+        c->min(min_);
+        c->max(max_);
+        return c;
+    }
+
     using Codec::setDataStream;
     void setDataStream(DataStream<ByteOrder>& ds) override { ds_ = &ds; }
     void clearDataStream() override { ds_ = 0; }
-- 
2.43.0


From 347b9fa0b8f1c7e3017eee040b971958cdcd03d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 02/75] fix: short reads and read failures are not the end of
 the data

A DataHandle may return fewer bytes than asked for before its end; headers
and row data were then reported as truncated, or row data was decoded from
uninitialised memory because Table::readEncodedData ignored the length
actually read. A negative return from the source was taken as a normal end
of data by readMagic and moved the shared position backwards. A source that
stops delivering bytes at a frame boundary before its length (as a file
handle does on a read error) was taken as a complete shorter file.
---
 src/odc/ReaderIterator.cc              | 15 ++++++++++---
 src/odc/ReaderIterator.h               |  3 +++
 src/odc/core/Header.cc                 | 30 ++++++++++++++++++++------
 src/odc/core/Header.h                  | 11 ++++++++++
 src/odc/core/Table.cc                  | 20 +++++++----------
 src/odc/core/TablesReader.cc           |  6 +++++-
 src/odc/core/ThreadSharedDataHandle.cc |  2 ++
 7 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index a4406cd..fa1ec0a 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -34,11 +34,13 @@ ReaderIterator::ReaderIterator(Reader& owner) :
     newDataset_(false),
     rowDataBuffer_(0),
     noMore_(false),
+    length_(0),
+    bytesRead_(0),
     headerCounter_(0),
     byteOrder_(BYTE_ORDER_INDICATOR),
     refCount_(0) {
     ASSERT(f_);
-    f_->openForRead();
+    length_ = f_->openForRead();
 
     loadHeaderAndBufferData();
 }
@@ -60,11 +62,13 @@ ReaderIterator::ReaderIterator(Reader& owner, const PathName& pathName) :
     newDataset_(false),
     rowDataBuffer_(0),
     noMore_(false),
+    length_(0),
+    bytesRead_(0),
     headerCounter_(0),
     byteOrder_(BYTE_ORDER_INDICATOR),
     refCount_(0) {
     ASSERT(f_);
-    f_->openForRead();
+    length_ = f_->openForRead();
 
     loadHeaderAndBufferData();
 }
@@ -84,6 +88,9 @@ bool ReaderIterator::loadHeaderAndBufferData() {
         // Check the magic. If no more data, we are done
 
         if (!Header::readMagic(*f_)) {
+            // n.b. Some DataHandles always return 0 for the length (e.g. on a stream), so let that pass.
+            if (bytesRead_ < length_)
+                throw ODBIncomplete(f_->title(), Here());
             noMore_ = true;
             return false;
         }
@@ -92,6 +99,7 @@ bool ReaderIterator::loadHeaderAndBufferData() {
 
         Header header(columns_, properties_);
         header.loadAfterMagic(*f_);
+        bytesRead_ += header.encodedSize();
 
         byteOrder_          = header.byteOrder();
         rowDataSizeDoubles_ = rowDataSizeDoublesInternal();
@@ -178,7 +186,8 @@ size_t ReaderIterator::readBuffer(size_t dataSize) {
 
     // Read the data into a buffer
 
-    size_t bytesRead = f_->read(rowDataBuffer_, dataSize);
+    size_t bytesRead = readFully(*f_, rowDataBuffer_, dataSize);
+    bytesRead_ += bytesRead;
     if (bytesRead == 0)
         return 0;
 
diff --git a/src/odc/ReaderIterator.h b/src/odc/ReaderIterator.h
index db8b26c..57c6840 100644
--- a/src/odc/ReaderIterator.h
+++ b/src/odc/ReaderIterator.h
@@ -139,6 +139,9 @@ public:
 
 private:
 
+    eckit::Length length_;
+    eckit::Length bytesRead_;
+
     unsigned long headerCounter_;
     int32_t byteOrder_;
 
diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index 2e325cd..013487f 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -29,8 +29,24 @@ namespace core {
 
 //----------------------------------------------------------------------------------------------------------------------
 
+size_t readFully(DataHandle& dh, void* buffer, size_t length) {
+
+    size_t total = 0;
+    while (total < length) {
+        long bytesRead = dh.read(static_cast<char*>(buffer) + total, length - total);
+        if (bytesRead < 0)
+            throw ReadError(dh.title(), Here());
+        if (bytesRead == 0)
+            break;
+        total += bytesRead;
+    }
+    return total;
+}
+
+//----------------------------------------------------------------------------------------------------------------------
+
 Header::Header(MetaData& md, Properties& props) :
-    md_(md), props_(props), dataSize_(0), rowsNumber_(0), byteOrder_(BYTE_ORDER_INDICATOR) {}
+    md_(md), props_(props), dataSize_(0), rowsNumber_(0), byteOrder_(BYTE_ORDER_INDICATOR), encodedSize_(0) {}
 
 Header::~Header() {}
 
@@ -38,8 +54,8 @@ bool Header::readMagic(DataHandle& dh) {
 
     eckit::FixedString<5> magic;
 
-    long bytesRead = dh.read(&magic, sizeof(magic));
-    if (bytesRead == 0 || bytesRead == EOF)
+    size_t bytesRead = readFully(dh, &magic, sizeof(magic));
+    if (bytesRead == 0)
         return false;
     if (bytesRead != sizeof(magic))
         throw ODBIncomplete(dh.title(), Here());
@@ -56,7 +72,7 @@ void Header::load(DataHandle& dh) {
     constexpr size_t basic_header_size = 12 + 32 + 4;
     char basicBuffer[basic_header_size];
 
-    if (dh.read(basicBuffer, sizeof(basicBuffer)) != sizeof(basicBuffer))
+    if (readFully(dh, basicBuffer, sizeof(basicBuffer)) != sizeof(basicBuffer))
         throw ODBIncomplete(dh.title(), Here());
 
     DataStream<ByteOrder> ds1(basicBuffer, sizeof(basicBuffer));
@@ -79,9 +95,11 @@ void Header::load(DataHandle& dh) {
     // Read the remaining header data
 
     eckit::Buffer buffer(headerSize);
-    if (dh.read(buffer, headerSize) != headerSize)
+    if (readFully(dh, buffer, buffer.size()) != buffer.size())
         throw ODBIncomplete(dh.title(), Here());
 
+    encodedSize_ = 5 + sizeof(byteOrder_) + basic_header_size + buffer.size();
+
     // Calculate the MD5
 
     MD5 md5;
@@ -123,7 +141,7 @@ void Header::load(DataHandle& dh) {
 
 void Header::loadAfterMagic(DataHandle& dh) {
 
-    if (dh.read(&byteOrder_, sizeof(byteOrder_)) != sizeof(byteOrder_)) {
+    if (readFully(dh, &byteOrder_, sizeof(byteOrder_)) != sizeof(byteOrder_)) {
         throw ODBIncomplete(dh.title(), Here());
     }
 
diff --git a/src/odc/core/Header.h b/src/odc/core/Header.h
index 8ee315c..29794a1 100644
--- a/src/odc/core/Header.h
+++ b/src/odc/core/Header.h
@@ -46,6 +46,13 @@ const int32_t FORMAT_VERSION_NUMBER_MINOR = 5;
 
 //----------------------------------------------------------------------------------------------------------------------
 
+/// Read exactly length bytes, unless the source ends first. A DataHandle may return less than asked for before the end.
+/// @return the number of bytes read
+/// @throws ReadError if the source reports a failure
+size_t readFully(eckit::DataHandle& dh, void* buffer, size_t length);
+
+//----------------------------------------------------------------------------------------------------------------------
+
 class Header {
 
 public:  // methods
@@ -63,6 +70,9 @@ public:  // methods
 
     int32_t byteOrder() { return byteOrder_; }
 
+    /// The number of bytes this header occupies in the source, including the MAGIC
+    size_t encodedSize() const { return encodedSize_; }
+
     /// read Magic loads the MAGIC from the data handle. Returns 0 for end of stream,
     /// and throws an exception if the magic is incorrect.
     static bool readMagic(eckit::DataHandle& dh);
@@ -87,6 +97,7 @@ private:  // members
     size_t rowsNumber_;
 
     int32_t byteOrder_;
+    size_t encodedSize_;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 4f85a1b..ce6fad4 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -72,18 +72,14 @@ const Properties& Table::properties() const {
 
 Buffer Table::readEncodedData(bool includeHeader) {
 
-    if (includeHeader) {
-        Buffer data(nextPosition() - startPosition());
-        dh_.seek(startPosition());
-        dh_.read(data, nextPosition() - startPosition());
-        return data;
-    }
-    else {
-        Buffer data(dataSize_);
-        dh_.seek(dataPosition_);
-        dh_.read(data, dataSize_);
-        return data;
-    }
+    const Offset position = includeHeader ? startPosition() : dataPosition_;
+    Buffer data(nextPosition() - position);
+
+    dh_.seek(position);
+    if (readFully(dh_, data, data.size()) != data.size())
+        throw ODBIncomplete(dh_.title(), Here());
+
+    return data;
 }
 
 const std::map<std::string, size_t>& Table::columnLookup() {
diff --git a/src/odc/core/TablesReader.cc b/src/odc/core/TablesReader.cc
index 88e274b..c2e2d64 100644
--- a/src/odc/core/TablesReader.cc
+++ b/src/odc/core/TablesReader.cc
@@ -117,8 +117,12 @@ bool TablesReader::ensureTable(long idx) {
         }
 
         std::unique_ptr<Table> tbl(Table::readTable(dh_));
-        if (!tbl)
+        if (!tbl) {
+            // A source that stops delivering data before its length has not come to its end
+            if (nextPosition < dh_.estimate())
+                throw ODBIncomplete(dh_.title(), Here());
             return false;
+        }
         tables_.emplace_back(std::move(tbl));
     }
 
diff --git a/src/odc/core/ThreadSharedDataHandle.cc b/src/odc/core/ThreadSharedDataHandle.cc
index e1d3f38..46025e3 100644
--- a/src/odc/core/ThreadSharedDataHandle.cc
+++ b/src/odc/core/ThreadSharedDataHandle.cc
@@ -99,6 +99,8 @@ long ThreadSharedDataHandle::read(void* buffer, long length) {
     }
 
     long delta = internal_->dh_->read(buffer, length);
+    if (delta < 0)
+        throw eckit::ReadError(internal_->dh_->title(), Here());
     position_ += delta;
     return delta;
 }
-- 
2.43.0


From 65f5abc12f9ecda759c6294eb1546aefe5db398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 03/75] fix: check the result of dup() in
 odc_open_file_descriptor

The descriptor passed in was checked instead of the duplicate.
---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 624c61a..c574145 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -277,7 +277,7 @@ int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
         // Take a copy of the file descriptor. This allows us to decouple the life of this
         // from the life of the caller
         int fd2 = dup(fd);
-        if (fd == -1)
+        if (fd2 == -1)
             throw CantOpenFile("dup() failed on supplied file descriptor", Here());
         (*reader) = new odc_reader_t(new FileDescHandle(fd2, true));
     });
-- 
2.43.0


From 7e02847fbb7e0453b64687a52afe28dc66a38e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 04/75] fix: lock the table list and the source in
 TablesReader::getTable and ThreadSharedDataHandle::estimate

Both are reached from threads holding separate views of one reader while
another thread discovers further tables or reads.
---
 src/odc/core/TablesReader.cc           | 3 +++
 src/odc/core/ThreadSharedDataHandle.cc | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/odc/core/TablesReader.cc b/src/odc/core/TablesReader.cc
index c2e2d64..96c0e52 100644
--- a/src/odc/core/TablesReader.cc
+++ b/src/odc/core/TablesReader.cc
@@ -131,6 +131,9 @@ bool TablesReader::ensureTable(long idx) {
 
 Table& TablesReader::getTable(long idx) {
 
+    // Another view on the same reader may be adding a table
+    std::lock_guard<std::mutex> lock(m_);
+
     ASSERT(idx >= 0);
     ASSERT(idx < long(tables_.size()));
 
diff --git a/src/odc/core/ThreadSharedDataHandle.cc b/src/odc/core/ThreadSharedDataHandle.cc
index 46025e3..318ae72 100644
--- a/src/odc/core/ThreadSharedDataHandle.cc
+++ b/src/odc/core/ThreadSharedDataHandle.cc
@@ -117,6 +117,7 @@ void ThreadSharedDataHandle::close() {
 
 eckit::Length ThreadSharedDataHandle::estimate() {
     ASSERT(internal_);
+    std::lock_guard<std::mutex> lock(internal_->m_);
     return internal_->dh_->estimate();
 }
 
-- 
2.43.0


From de56329c40a1b23e119259ab6c2493b57ce4839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 05/75] fix: make odc_open_stream usable

The handle wrapping the callback had no position(), estimate() or seek(),
all of which reading needs, so every read of a stream failed with "Not
implemented: DataHandle::position()". Streams are read in order; going
backwards is an error.
---
 src/odc/api/odc.cc | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index c574145..dd720c8 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -12,6 +12,7 @@
 #include <cstdint>
 #include <cstring>
 #include <functional>
+#include <algorithm>
 #include <numeric>
 
 #include "eckit/exception/Exceptions.h"
@@ -299,12 +300,35 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
         Length openForRead() override { return workaroundFunction(); }
         void openForWrite(const Length&) override { NOTIMP; }
         void openForAppend(const Length&) override { NOTIMP; }
-        long read(void* buffer, long length) override { return fn_(handle_, buffer, length); }
+        long read(void* buffer, long length) override {
+            long n = fn_(handle_, buffer, length);
+            if (n > 0)
+                position_ += n;
+            return n;
+        }
         long write(const void*, long) override { NOTIMP; }
         void close() override {}
+        Length estimate() override { return workaroundFunction(); }
+        std::string title() const override { return "StreamReadHandle"; }
+        Offset position() override { return position_; }
+        Offset seek(const Offset& offset) override {
+            // A stream can only be read forwards. Data which is not wanted is read and dropped.
+            long long remaining = offset - position_;
+            if (remaining < 0)
+                throw ReadError("Cannot go backwards in a stream", Here());
+            char buffer[4096];
+            while (remaining > 0) {
+                long n = read(buffer, std::min<long long>(remaining, sizeof(buffer)));
+                if (n <= 0)
+                    throw ReadError("Stream ended before the data required", Here());
+                remaining -= n;
+            }
+            return position_;
+        }
 
         void* handle_;
         odc_stream_read_t fn_;
+        Offset position_ = 0;
     };
 
     return wrapApiFunction(
-- 
2.43.0


From 6d8ce8f4f399e4e423bb6d7639684e7fde09c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 06/75] fix: a failed advance leaves the frame iterator and
 reader where they were

When finding the next frame failed, the iterator had already moved past it,
so a later advance (once another view of the same reader had found the
frame) silently skipped it, and frames already collected for an aggregated
frame were lost.
---
 src/odc/api/Odb.cc           | 30 ++++++++++++++++++------------
 src/odc/core/TablesReader.cc |  8 +++++---
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 86c282b..22e5ed0 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -126,22 +126,24 @@ Frame ReaderImpl::next() {
 
     std::vector<core::Table> tables;
 
-    if (it_ == tablesReader_.end())
-        return Frame();
+    // n.b. The reader only moves on once the frame is complete. If anything throws, it stays where it is
+    auto it = it_;
 
-    if (!first_) {
-        ++it_;
-        if (it_ == tablesReader_.end())
-            return Frame();
+    if (it != tablesReader_.end() && !first_) {
+        ++it;
     }
 
-    first_ = false;
-    tables.emplace_back(*it_);
+    if (it == tablesReader_.end()) {
+        it_ = it;
+        return Frame();
+    }
+
+    tables.emplace_back(*it);
     long nrows = tables.back().rowCount();
 
     if (aggregated_) {
         while (true) {
-            auto it_next = it_;
+            auto it_next = it;
             ++it_next;
             if (it_next == tablesReader_.end())
                 break;
@@ -152,14 +154,18 @@ Frame ReaderImpl::next() {
             if (!tables.front().columns().compatible(it_next->columns()))
                 break;
 
-            ++it_;
-            tables.emplace_back(*it_);
+            it = it_next;
+            tables.emplace_back(*it);
             nrows = next_nrows;
         }
     }
 
     ASSERT(rowlimit_ < 0 || nrows <= rowlimit_);
-    return Frame(std::unique_ptr<FrameImpl>(new FrameImpl(std::move(tables))));
+    Frame frame(std::unique_ptr<FrameImpl>(new FrameImpl(std::move(tables))));
+
+    it_    = it;
+    first_ = false;
+    return frame;
 }
 
 Buffer FrameImpl::encodedData() {
diff --git a/src/odc/core/TablesReader.cc b/src/odc/core/TablesReader.cc
index 96c0e52..2460a7b 100644
--- a/src/odc/core/TablesReader.cc
+++ b/src/odc/core/TablesReader.cc
@@ -39,9 +39,11 @@ bool ReadTablesIterator::operator==(const ReadTablesIterator& other) {
 
 ReadTablesIterator& ReadTablesIterator::operator++() {
 
-    ++pos_;
-
-    if (!owner_.get().ensureTable(pos_)) {
+    // n.b. If this throws, the iterator stays where it is
+    if (owner_.get().ensureTable(pos_ + 1)) {
+        ++pos_;
+    }
+    else {
         pos_ = -1;
     }
 
-- 
2.43.0


From 66b30592926696ab5b11b946ece18e4596e43b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 07/75] fix: allow SQL over a stream that holds no rows

The column offsets were only looked up if there was a row, and then asserted
to be there.
---
 src/odc/sql/TODATableIterator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index 6dcf607..b1d2dea 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -63,8 +63,8 @@ TODATableIterator<READER>::TODATableIterator(
     metadataUpdateCallback_(metadataUpdateCallback),
     firstRow_(true) {
 
-    if (it_ != end_)
-        updateMetaData();
+    // n.b. The columns are known even if there are no rows
+    updateMetaData();
 }
 
 template <typename READER>
-- 
2.43.0


From 3d7bd5414ff6857a30b28c886e65974a5e075db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 08/75] fix: refuse rows that start beyond the last column, and
 never decode past a frame's own data

---
 src/odc/ReaderIterator.cc | 13 +++++++++++--
 src/odc/core/Table.cc     | 10 ++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index fa1ec0a..963c3cc 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -15,6 +15,7 @@
 #include "odc/Reader.h"
 #include "odc/ReaderIterator.h"
 #include "odc/core/Codec.h"
+#include "odc/core/Exceptions.h"
 #include "odc/core/Header.h"
 
 using namespace eckit;
@@ -159,7 +160,7 @@ void ReaderIterator::initRowBuffer() {
     size_t nCols       = columns().size();
 
     delete[] lastValues_;
-    lastValues_ = new double[numDoubles];
+    lastValues_ = new double[numDoubles]();
 
     codecs_.clear();
     codecs_.resize(nCols, 0);
@@ -199,7 +200,9 @@ size_t ReaderIterator::readBuffer(size_t dataSize) {
 
     // Assign the data to a DataStream.
 
-    rowDataStream_ = GeneralDataStream(byteOrder_ != BYTE_ORDER_INDICATOR, rowDataBuffer_);
+    // n.b. The buffer may be larger than the data of this frame (it is reused between frames).
+
+    rowDataStream_ = GeneralDataStream(byteOrder_ != BYTE_ORDER_INDICATOR, rowDataBuffer_.data(), dataSize);
 
     // Assign the appropriate data stream to each of the codecs.
 
@@ -226,6 +229,12 @@ bool ReaderIterator::next() {
     int startCol = (marker[0] * 256) + marker[1];
 
     size_t nCols = columns().size();
+    if (size_t(startCol) > nCols) {
+        std::stringstream ss;
+        ss << "Row starts at column " << startCol << ", but there are only " << nCols << " columns";
+        throw ODBDecodeError(ss.str(), Here());
+    }
+
     for (size_t i = startCol; i < nCols; i++) {
         codecs_[i]->decode(&lastValues_[columnOffsets_[i]]);
     }
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index ce6fad4..5633ca0 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -195,6 +195,11 @@ void Table::decode(DecodeTarget& target) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        if (startCol > long(ncols)) {
+            std::stringstream ss;
+            ss << "Row starts at column " << startCol << ", but there are only " << ncols << " columns";
+            throw ODBDecodeError(ss.str(), Here());
+        }
 
         if (lastStartCol > startCol) {
             for (int col = startCol; col < lastStartCol; col++) {
@@ -402,6 +407,11 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        if (startCol > long(ncols)) {
+            std::stringstream ss;
+            ss << "Row starts at column " << startCol << ", but there are only " << ncols << " columns";
+            throw ODBDecodeError(ss.str(), Here());
+        }
 
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
-- 
2.43.0


From 791c9f695f8ac198fe1999524edbfb9858431338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 09/75] fix: check lengths, counts and indices read from frame
 headers and string tables

---
 src/odc/codec/Constant.h  |  2 +-
 src/odc/codec/String.h    |  6 +++---
 src/odc/core/Column.h     |  4 ++++
 src/odc/core/DataStream.h | 24 +++++++++++++++++++-----
 src/odc/core/Header.cc    |  7 +++++++
 src/odc/core/MetaData.h   |  1 +
 6 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/odc/codec/Constant.h b/src/odc/codec/Constant.h
index 31d3d83..3c9fd8e 100644
--- a/src/odc/codec/Constant.h
+++ b/src/odc/codec/Constant.h
@@ -194,7 +194,7 @@ void CodecLongConstantString<ByteOrder>::load(core::DataStream<ByteOrder>& ds) {
     core::DataStreamCodec<ByteOrder>::load(ds);
     std::string s;
     ds.read(s);
-    this->decodedSizeDoubles_ = ((s.length() - 1) / sizeof(double)) + 1;
+    this->decodedSizeDoubles_ = s.empty() ? 1 : ((s.length() - 1) / sizeof(double)) + 1;
     this->strings_.push_back(s);
 }
 
diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index 7881b4a..d2d367c 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -140,7 +140,7 @@ private:  // methods
         InternalInt i;
         static_cast<core::Codec&>(intCodec_).decode(reinterpret_cast<double*>(&i));
 
-        ASSERT(i < long(this->strings_.size()));
+        ASSERT(i >= 0 && i < long(this->strings_.size()));
         const std::string& s(this->strings_[i]);
 
         ::memset(out, 0, this->decodedSizeDoubles_ * sizeof(double));
@@ -157,7 +157,7 @@ private:  // methods
         // This is based on the old-style hash-table storage, so it isn't a trivial list of strings
         int32_t numStrings;
         ds.read(numStrings);
-        ASSERT(numStrings >= 0);
+        ds.checkRemaining(numStrings);  // n.b. Each string takes at least one byte
 
         this->strings_.resize(numStrings);
 
@@ -174,7 +174,7 @@ private:  // methods
             int32_t index;
             ds.read(index);
 
-            ASSERT(index < numStrings);
+            ASSERT(index >= 0 && index < numStrings);
             this->strings_[index] = s;
 
             if (s.length() != 0) {
diff --git a/src/odc/core/Column.h b/src/odc/core/Column.h
index 2312dda..dca3ec4 100644
--- a/src/odc/core/Column.h
+++ b/src/odc/core/Column.h
@@ -146,6 +146,10 @@ void Column::load(DataStream<ByteOrder>& ds) {
         ds.read(names);
         ds.read(sizes);
         ASSERT(names.size() == sizes.size());
+        for (int32_t size : sizes) {
+            if (size < 0 || size > 64)
+                throw ODBDecodeError("Invalid size of bitfield member in column '" + name_ + "'", Here());
+        }
     }
 
     coder_ = CodecFactory::instance().load(ds, api::ColumnType(type_));
diff --git a/src/odc/core/DataStream.h b/src/odc/core/DataStream.h
index a207a62..0cf7449 100644
--- a/src/odc/core/DataStream.h
+++ b/src/odc/core/DataStream.h
@@ -77,6 +77,9 @@ public:
     void read(std::map<T, S>& props);
     void read(std::string& s);
 
+    /// Check that a count read from the stream is not more than the remaining data can hold
+    void checkRemaining(int64_t count) const;
+
     void read(void* addr, size_t bytes);
     void readBytes(void* addr, size_t bytes);  // ReadBytes does no endianness checks
 
@@ -103,8 +106,8 @@ public:
         current_ = p;
     }
     void advance(size_t nbytes) {
+        ASSERT(nbytes <= size_t(end_ - current_));
         current_ += nbytes;
-        ASSERT(current_ <= end_);
     }
 
 private:  // members
@@ -229,6 +232,7 @@ inline void DataStream<ByteOrder>::read(std::vector<T>& vec) {
     vec.clear();
     int32_t count;
     read(count);
+    checkRemaining(count);  // n.b. Each element takes at least one byte
     vec.resize(count);
     for (auto& elem : vec)
         read(elem);
@@ -241,6 +245,7 @@ inline void DataStream<ByteOrder>::read(std::map<T, S>& props) {
     props.clear();
     int32_t count;
     read(count);
+    checkRemaining(count);
     for (int32_t i = 0; i < count; i++) {
         T first;
         S second;
@@ -256,12 +261,23 @@ inline void DataStream<ByteOrder>::read(std::string& s) {
 
     int32_t len;
     read(len);
+    checkRemaining(len);
 
     s.resize(len);
     readBytes(&s[0], len);  // n.b. raw read. Bytes are in order.
 }
 
 
+template <typename ByteOrder>
+inline void DataStream<ByteOrder>::checkRemaining(int64_t count) const {
+    if (count < 0 || count > end_ - current_) {
+        std::stringstream ss;
+        ss << "Invalid count " << count << " in DataStream with only " << (end_ - current_) << " bytes remaining";
+        throw ODBEndOfDataStream(ss.str(), Here());
+    }
+}
+
+
 // read --> takes endianness into account.
 template <typename ByteOrder>
 inline void DataStream<ByteOrder>::read(void* addr, size_t bytes) {
@@ -274,9 +290,7 @@ inline void DataStream<ByteOrder>::read(void* addr, size_t bytes) {
 template <typename ByteOrder>
 inline void DataStream<ByteOrder>::readBytes(void* addr, size_t bytes) {
 
-    char* newpos = current_ + bytes;
-
-    if (newpos > end_) {
+    if (bytes > size_t(end_ - current_)) {
         std::stringstream ss;
         ss << "Attempting to read " << bytes << " bytes from DataStream with only " << (end_ - current_)
            << " bytes remaining";
@@ -284,7 +298,7 @@ inline void DataStream<ByteOrder>::readBytes(void* addr, size_t bytes) {
     }
 
     ::memcpy(addr, current_, bytes);
-    current_ = newpos;
+    current_ += bytes;
 }
 
 
diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index 013487f..4d95e31 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -91,6 +91,8 @@ void Header::load(DataHandle& dh) {
 
     int32_t headerSize;
     ds1.read(headerSize);
+    if (headerSize < 0)
+        throw ODBInvalid(dh.title(), "Negative header size", Here());
 
     // Read the remaining header data
 
@@ -113,6 +115,8 @@ void Header::load(DataHandle& dh) {
     // 0 means we don't know offset of next header.
     int64_t nextFrameOffset;
     ds2.read(nextFrameOffset);
+    if (nextFrameOffset < 0)
+        throw ODBInvalid(dh.title(), "Negative data size", Here());
     dataSize_ = nextFrameOffset;
     md_.dataSize(dataSize_);
 
@@ -125,6 +129,9 @@ void Header::load(DataHandle& dh) {
 
     int64_t numberOfRows;
     ds2.read(numberOfRows);
+    // n.b. Each row takes at least two bytes (the marker)
+    if (numberOfRows < 0 || numberOfRows > nextFrameOffset / 2)
+        throw ODBInvalid(dh.title(), "Number of rows does not match the data size", Here());
     rowsNumber_ = numberOfRows;
     md_.rowsNumber(rowsNumber_);
 
diff --git a/src/odc/core/MetaData.h b/src/odc/core/MetaData.h
index 428dc0b..22f415b 100644
--- a/src/odc/core/MetaData.h
+++ b/src/odc/core/MetaData.h
@@ -150,6 +150,7 @@ void MetaData::load(DataStream<ByteOrder>& ds) {
 
     int32_t nCols;
     ds.read(nCols);
+    ds.checkRemaining(nCols);  // n.b. Each column takes at least one byte
     resize(nCols, NULL);
     for (size_t i = 0; i < size(); i++) {
         delete at(i);
-- 
2.43.0


From 7c33fccfef20e057e46d99140763c0d9eb33acb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 10/75] fix: report wide constant strings in full in a span

---
 src/odc/core/Table.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 5633ca0..983344a 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -252,7 +252,16 @@ Span Table::span(const std::vector<std::string>& columns, bool onlyConstants) {
             throw UserError("Column '" + columnName + "' not found", Here());
 
         if (column->isConstant()) {
-            s.addValue(columnName, column->type(), column->min());
+            if (column->type() == api::STRING) {
+                // A constant string may be wider than the one double that min() can hold
+                std::vector<double> value(column->dataSizeDoubles());
+                column->coder().decode(value.data());
+                const char* c = reinterpret_cast<const char*>(value.data());
+                s.addValues(columnName, std::set<std::string>{std::string(c, ::strnlen(c, value.size() * sizeof(double)))});
+            }
+            else {
+                s.addValue(columnName, column->type(), column->min());
+            }
         }
         else {
             nonConstantColumns.push_back(columnName);
-- 
2.43.0


From 70d93c8c8cd797db9d882bd0bb0244b54431b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 11/75] fix: do not open the handle of a block twice when
 indexing

---
 src/odc/Indexer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/Indexer.cc b/src/odc/Indexer.cc
index 3fce56b..d5f59cd 100644
--- a/src/odc/Indexer.cc
+++ b/src/odc/Indexer.cc
@@ -76,8 +76,8 @@ void Indexer::createIndex(const PathName& dataFile, const PathName& indexFile) {
         Offset blockBegin(offsets[i].first);
         Length blockLength(offsets[i].second);
 
+        // n.b. Select opens the handle, which must not be opened twice
         PartFileHandle h(dataFile, blockBegin, blockLength);
-        h.openForRead();
         AutoClose closer(h);
 
         int prevSeqno(-1);
-- 
2.43.0


From 6348f3f1f2f114821b45036ec74de71d2f9526a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 12/75] fix: copies of frames keep their own property index,
 and an empty frame can be copied

---
 src/odc/api/Odb.cc |  4 ++--
 src/odc/api/odc.cc | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 22e5ed0..20ae3f8 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -514,14 +514,14 @@ Frame::Frame() : impl_(nullptr) {}
 
 Frame::Frame(std::unique_ptr<FrameImpl>&& impl) : impl_(std::move(impl)) {}
 
-Frame::Frame(const Frame& rhs) : impl_(new FrameImpl(*rhs.impl_)) {}
+Frame::Frame(const Frame& rhs) : impl_(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr) {}
 
 Frame::Frame(Frame&& rhs) : impl_(std::move(rhs.impl_)) {}
 
 Frame::~Frame() {}
 
 Frame& Frame::operator=(const Frame& rhs) {
-    impl_.reset(new FrameImpl(*rhs.impl_));
+    impl_.reset(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr);
     return *this;
 }
 
diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index dd720c8..1aef570 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -372,10 +372,11 @@ int odc_next_frame(odc_frame_t* frame) {
             r.impl_.reset(new Reader(*r.dh_, aggregated));
         }
 
-        if ((frame->frame_ = r.impl_->next())) {
-            frame->propertiesMemoised_ = false;
-            frame->propertiesIndex_.clear();
+        // The index of the properties refers to the frame that is about to be replaced
+        frame->propertiesMemoised_ = false;
+        frame->propertiesIndex_.clear();
 
+        if ((frame->frame_ = r.impl_->next())) {
             return ODC_SUCCESS;
         }
         else {
@@ -394,10 +395,11 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
             r.impl_.reset(new Reader(*r.dh_, aggregated, maximum_rows));
         }
 
-        if ((frame->frame_ = r.impl_->next())) {
-            frame->propertiesMemoised_ = false;
-            frame->propertiesIndex_.clear();
+        // The index of the properties refers to the frame that is about to be replaced
+        frame->propertiesMemoised_ = false;
+        frame->propertiesIndex_.clear();
 
+        if ((frame->frame_ = r.impl_->next())) {
             return ODC_SUCCESS;
         }
         else {
@@ -409,7 +411,8 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
 int odc_copy_frame(odc_frame_t* source_frame, odc_frame_t** copy) {
     return wrapApiFunction([source_frame, copy] {
         ASSERT(source_frame);
-        (*copy) = new odc_frame_t{*source_frame};
+        // n.b. The index of the properties refers to the frame it was made for, so the copy needs its own
+        (*copy) = new odc_frame_t{source_frame->reader_, false, {}, source_frame->frame_};
     });
 }
 
@@ -480,8 +483,8 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
 
         if (!frame->propertiesMemoised_) {
             const auto& properties(frame->frame_.properties());
-            ASSERT(idx >= 0 && size_t(idx) < properties.size());
 
+            frame->propertiesIndex_.clear();
             frame->propertiesIndex_.reserve(properties.size());
             for (std::map<std::string, std::string>::const_iterator it = properties.begin(); it != properties.end();
                  ++it) {
@@ -491,6 +494,8 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
             frame->propertiesMemoised_ = true;
         }
 
+        ASSERT(idx >= 0 && size_t(idx) < frame->propertiesIndex_.size());
+
         *key   = frame->propertiesIndex_[idx]->first.c_str();
         *value = frame->propertiesIndex_[idx]->second.c_str();
     });
-- 
2.43.0


From de587c82bf8cbe30f3cf085bec5c6904f640bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 13/75] fix: lay out the data array of a decoder for explicit
 sizes, own columns and reuse

---
 src/odc/api/odc.cc | 61 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 1aef570..7a654bb 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -52,10 +52,29 @@ struct odc_decoder_t {
         size_t elemSize;
         size_t stride;
         bool transpose;
+        bool inArray;   // Located in the data array by the decoder (not supplied by the user)
+        bool autoSize;  // Element size taken from the frame (not supplied by the user)
     };
 
     odc_decoder_t() : nrows(0), dataWidth(0), dataHeight(0), externalData(0), columnMajor(false), ownedData() {}
 
+    /// The location of columns in the data array is kept between calls to decode. It needs to be determined
+    /// again if anything that it depends on changes.
+    void resetLayout() {
+        for (auto& col : columnData) {
+            if (col.inArray) {
+                col.data      = 0;
+                col.stride    = 0;
+                col.transpose = false;
+                col.inArray   = false;
+                if (col.autoSize) {
+                    col.elemSize = 0;
+                    col.autoSize = false;
+                }
+            }
+        }
+    }
+
     size_t nrows;
     std::vector<std::string> columnNames;
     std::vector<DecodeColumn> columnData;
@@ -536,7 +555,9 @@ int odc_decoder_defaults_from_frame(odc_decoder_t* decoder, const odc_frame_t* f
         // Fill in column details
 
         for (size_t col = 0; col < ncols; ++col) {
-            odc_decoder_add_column(decoder, frame->frame_.columnInfo()[col].name.c_str());
+            if (odc_decoder_add_column(decoder, frame->frame_.columnInfo()[col].name.c_str()) != ODC_SUCCESS) {
+                throw SeriousBug("Could not add column to decoder", Here());
+            }
         }
     });
 }
@@ -544,6 +565,8 @@ int odc_decoder_defaults_from_frame(odc_decoder_t* decoder, const odc_frame_t* f
 int odc_decoder_set_column_major(odc_decoder_t* decoder, bool columnMajor) {
     return wrapApiFunction([decoder, columnMajor] {
         ASSERT(decoder);
+        if (decoder->columnMajor != columnMajor)
+            decoder->resetLayout();
         decoder->columnMajor = columnMajor;
     });
 }
@@ -569,6 +592,7 @@ int odc_decoder_set_data_array(odc_decoder_t* decoder, void* buffer, long width,
         ASSERT(buffer);
         ASSERT(width > 0);
         ASSERT(height > 0);
+        decoder->resetLayout();
         decoder->externalData = buffer;
         decoder->dataWidth    = width;
         decoder->dataHeight   = height;
@@ -606,7 +630,7 @@ int odc_decoder_add_column(odc_decoder_t* decoder, const char* name) {
         ASSERT(decoder);
         ASSERT(name);
         decoder->columnNames.emplace_back(name);
-        decoder->columnData.emplace_back(odc_decoder_t::DecodeColumn{0, 0, 0, false});
+        decoder->columnData.emplace_back(odc_decoder_t::DecodeColumn{0, 0, 0, false, false, false});
     });
 }
 
@@ -623,8 +647,13 @@ int odc_decoder_column_set_data_size(odc_decoder_t* decoder, int col, int elemen
         ASSERT(decoder);
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
 
+        ASSERT(element_size >= 0);
+
         auto& cd(decoder->columnData[col]);
+        if (cd.elemSize != size_t(element_size))
+            decoder->resetLayout();
         cd.elemSize = element_size;
+        cd.autoSize = false;
     });
 }
 
@@ -633,6 +662,9 @@ int odc_decoder_column_set_data_array(odc_decoder_t* decoder, int col, int eleme
         ASSERT(decoder);
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
 
+        ASSERT(element_size >= 0);
+
+        decoder->resetLayout();
         auto& cd(decoder->columnData[col]);
         cd.elemSize = element_size;
         cd.stride   = stride;
@@ -662,9 +694,17 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
         decoder->nrows = frame->frame_.rowCount();
     }
 
+    // If columns have been added, or there is no longer enough space, then the columns in the data array move
+
+    for (const auto& col : decoder->columnData) {
+        if (!col.data || (col.inArray && decoder->nrows > decoder->dataHeight)) {
+            decoder->resetLayout();
+            break;
+        }
+    }
+
     size_t height = decoder->nrows;  // in rows
     size_t width  = 0;               // in bytes
-    std::vector<std::pair<size_t, long>> offsets;
 
     for (size_t i = 0; i < decoder->columnData.size(); ++i) {
         odc_decoder_t::DecodeColumn& col(decoder->columnData[i]);
@@ -681,9 +721,18 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
                 ASSERT(it->decodedSize > 0);
                 ASSERT(it->decodedSize % sizeof(double) == 0);
                 col.elemSize = it->decodedSize;
+                col.autoSize = true;
             }
+        }
+
+        if (!col.data) {
+            ASSERT(col.elemSize % sizeof(double) == 0);
+            col.inArray = true;
             width += col.elemSize;
         }
+        else if (col.stride == 0) {
+            col.stride = col.elemSize;
+        }
     }
 
     if (width != 0 && height != 0) {
@@ -718,10 +767,6 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
                     offset += col.elemSize;
                 }
             }
-            else {
-                if (col.stride == 0)
-                    col.stride = col.elemSize;
-            }
         }
     }
 }
@@ -782,7 +827,7 @@ int odc_decode_threaded(odc_decoder_t* decoder, const odc_frame_t* frame, long*
             size_t colIndex        = kv.first;
             const double* tmpArray = kv.second.get();
             double* output         = static_cast<double*>(decoder->columnData[colIndex].data);
-            size_t rows            = decoder->nrows;
+            size_t rows            = decoder->dataHeight;
             size_t cols            = decoder->columnData[colIndex].elemSize / sizeof(double);
             for (size_t row = 0; row < frame_rows; row++) {
                 for (size_t col = 0; col < cols; col++) {
-- 
2.43.0


From 896fae0301cd2f13c73112835d9c638b88c125ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 14/75] fix: never decode beyond, or only part of, the elements
 of a decode target

---
 src/odc/core/Table.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 983344a..47f5c9b 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -127,6 +127,7 @@ void Table::decode(DecodeTarget& target) {
     std::vector<char> visitColumn(ncols, false);
     std::vector<api::StridedData*> facades(ncols,
                                            0);  // TODO: Do we want to do a copy, rather than point to StridedData*?
+    std::vector<size_t> excess(ncols, 0);       // Bytes in each element of the target beyond the width of the column
 
     ASSERT(target.columns().size() == target.dataFacades().size());
     ASSERT(target.columns().size() <= ncols);
@@ -153,6 +154,15 @@ void Table::decode(DecodeTarget& target) {
         visitColumn[pos] = true;
         facades[pos]     = &target.dataFacades()[i];
         ASSERT(target.dataFacades()[i].nelem() >= nrows);
+
+        size_t width = metadata[pos]->dataSizeDoubles() * sizeof(double);
+        if (facades[pos]->dataSize() < width) {
+            std::stringstream ss;
+            ss << "Column '" << nm << "' needs " << width << " bytes per value, but the decode target has "
+               << facades[pos]->dataSize();
+            throw ODBDecodeError(ss.str(), Here());
+        }
+        excess[pos] = facades[pos]->dataSize() - width;
     }
 
     // Read the data in in bulk for this table
@@ -181,6 +191,7 @@ void Table::decode(DecodeTarget& target) {
 
     for (int col = 0; col < long(ncols); col++) {
         if (visitColumn[col]) {
+            ::memset((*facades[col])[0], 0, facades[col]->dataSize());
             *reinterpret_cast<double*>((*facades[col])[0]) = decoders[col].get().missingValue();
         }
     }
@@ -211,7 +222,13 @@ void Table::decode(DecodeTarget& target) {
 
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
-                decoders[col].get().decode(reinterpret_cast<double*>((*facades[col])[rowCount]));
+                char* value = (*facades[col])[rowCount];
+                decoders[col].get().decode(reinterpret_cast<double*>(value));
+
+                // If the target is wider than the data, don't leave anything behind from previous use
+                if (excess[col] != 0)
+                    ::memset(value + facades[col]->dataSize() - excess[col], 0, excess[col]);
+
                 lastDecoded[col] = rowCount;
             }
             else {
-- 
2.43.0


From fa4998a1bfa28488cbcb7719cabe6f67380ac5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 15/75] fix: a reused encoder takes the number of rows of its
 new data array

---
 src/odc/api/odc.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 7a654bb..917eb01 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -91,7 +91,13 @@ struct odc_decoder_t {
 struct odc_encoder_t {
 
     odc_encoder_t() :
-        arrayData(0), columnMajorWidth(0), nrows(0), arrayWidth(0), arrayHeight(0), maxRowsPerFrame(10000) {}
+        arrayData(0),
+        columnMajorWidth(0),
+        nrows(0),
+        rowsFromArray(false),
+        arrayWidth(0),
+        arrayHeight(0),
+        maxRowsPerFrame(10000) {}
 
     struct EncodeColumn {
         const void* data;
@@ -102,6 +108,7 @@ struct odc_encoder_t {
     int columnMajorWidth;
 
     size_t nrows;
+    bool rowsFromArray;  // The number of rows is that of the data array (it has not been set explicitly)
     size_t arrayWidth;
     size_t arrayHeight;
     size_t maxRowsPerFrame;
@@ -870,7 +877,8 @@ int odc_encoder_add_property(odc_encoder_t* encoder, const char* key, const char
 int odc_encoder_set_row_count(odc_encoder_t* encoder, long nrows) {
     return wrapApiFunction([encoder, nrows] {
         ASSERT(encoder);
-        encoder->nrows = nrows;
+        encoder->nrows         = nrows;
+        encoder->rowsFromArray = false;
     });
 }
 
@@ -901,8 +909,10 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
         encoder->arrayWidth       = width;
         encoder->arrayHeight      = height;
         encoder->columnMajorWidth = columnMajorWidth;
-        if (encoder->nrows == 0)
-            encoder->nrows = height;
+        if (encoder->nrows == 0 || encoder->rowsFromArray) {
+            encoder->nrows         = height;
+            encoder->rowsFromArray = true;
+        }
     });
 }
 
-- 
2.43.0


From 691ac6073359cfa0e4e2c6114b4cc230d812bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:52 +0000
Subject: [PATCH 16/75] fix: strings whose first bytes look like a NaN can be
 copied

---
 src/odc/codec/String.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index d2d367c..8b325da 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -300,8 +300,9 @@ std::unique_ptr<core::Codec> CodecChars<ByteOrder>::clone() {
     c.stringLookup_                  = stringLookup_;
     c.strings_                       = strings_;
     c.decodedSizeDoubles_            = decodedSizeDoubles_;
-    ASSERT(c.min() == this->min_);
-    ASSERT(c.max() == this->max_);
+    // n.b. min_/max_ may hold the characters of a string, which do not compare equal if they look like a NaN
+    ASSERT(::memcmp(&c.min_, &this->min_, sizeof(this->min_)) == 0);
+    ASSERT(::memcmp(&c.max_, &this->max_, sizeof(this->max_)) == 0);
     return cdc;
 }
 
-- 
2.43.0


From 15e7e8ec0c3e935ae02293a7e8fdefc373eb1192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 17/75] fix: a column that contains a NaN is not constant

---
 src/odc/codec/CodecOptimizer.h | 8 +++++---
 src/odc/codec/Real.h           | 7 ++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 24b841c..775bfd5 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -60,7 +60,7 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                     dynamic_cast<CodecLongReal<core::SameByteOrder>*>(&col.coder());
                 ASSERT(codec_long != 0);
 
-                if (max == min) {
+                if (max == min && !codec_long->hasNaN()) {
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 }
                 else if (codec_long->hasShortReal2InternalMissing()) {
@@ -82,8 +82,9 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                 break;
             }
 
-            case api::DOUBLE:
-                if (max == min)
+            case api::DOUBLE: {
+                auto* codec_long = dynamic_cast<CodecLongReal<core::SameByteOrder>*>(&col.coder());
+                if (max == min && !(codec_long && codec_long->hasNaN()))
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 col.coder(core::CodecFactory::instance().build<ByteOrder>(codec, col.type()));
                 col.hasMissing(hasMissing);
@@ -94,6 +95,7 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                 //         << ">. Codec: "  << col.coder()
                 //         << std::endl;
                 break;
+            }
 
             case api::STRING: {
                 n = col.coder().numStrings();
diff --git a/src/odc/codec/Real.h b/src/odc/codec/Real.h
index 776d162..47c8d4d 100644
--- a/src/odc/codec/Real.h
+++ b/src/odc/codec/Real.h
@@ -37,12 +37,14 @@ public:  // methods
     CodecLongReal(api::ColumnType type) :
         core::DataStreamCodec<ByteOrder>(codec_name(), type),
         hasShortRealInternalMissing_(false),
-        hasShortReal2InternalMissing_(false) {}
+        hasShortReal2InternalMissing_(false),
+        hasNaN_(false) {}
 
     ~CodecLongReal() override {}
 
     bool hasShortRealInternalMissing() const { return hasShortRealInternalMissing_; }
     bool hasShortReal2InternalMissing() const { return hasShortReal2InternalMissing_; }
+    bool hasNaN() const { return hasNaN_; }
 
 private:  // methods
 
@@ -67,12 +69,15 @@ private:  // methods
             hasShortRealInternalMissing_ = true;
         if (v == realInternalMissing2)
             hasShortReal2InternalMissing_ = true;
+        if (v != v)
+            hasNaN_ = true;
     }
 
 private:  // members
 
     bool hasShortRealInternalMissing_;
     bool hasShortReal2InternalMissing_;
+    bool hasNaN_;  // NaNs are not included in min/max
 };
 
 
-- 
2.43.0


From 33c4c7989dd6fe760b58bf64fe3cc69333abdc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 18/75] fix: values that round to the internal missing value of
 a short real are not refused

---
 src/odc/codec/CodecOptimizer.h | 3 +--
 src/odc/codec/Real.h           | 8 +++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 775bfd5..21db863 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -64,8 +64,7 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 }
                 else if (codec_long->hasShortReal2InternalMissing()) {
-                    ASSERT(!codec_long->hasShortRealInternalMissing());
-                    codec = "short_real";
+                    codec = codec_long->hasShortRealInternalMissing() ? "long_real" : "short_real";
                 }
                 else if (codec_long->hasShortRealInternalMissing()) {
                     codec = "short_real2";
diff --git a/src/odc/codec/Real.h b/src/odc/codec/Real.h
index 47c8d4d..affc117 100644
--- a/src/odc/codec/Real.h
+++ b/src/odc/codec/Real.h
@@ -63,11 +63,13 @@ private:  // methods
     void gatherStats(const double& v) override {
         core::Codec::gatherStats(v);
 
+        // n.b. It is the value rounded to a float that must not collide with the internal missing value
+        float f                    = v;
         float realInternalMissing  = reinterpret_cast<const float&>(minFloatAsInt);
-        float realInternalMissing2 = reinterpret_cast<const float&>(maxFloatAsInt);
-        if (v == realInternalMissing)
+        float realInternalMissing2 = reinterpret_cast<const float&>(real2MissingAsInt);
+        if (f == realInternalMissing && v != this->missingValue_)
             hasShortRealInternalMissing_ = true;
-        if (v == realInternalMissing2)
+        if (f == realInternalMissing2 && v != this->missingValue_)
             hasShortReal2InternalMissing_ = true;
         if (v != v)
             hasNaN_ = true;
-- 
2.43.0


From ecee7b5c28670546dab7e0720d8482796128de16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 19/75] fix: Writer::rowsBufferSize returns the writer

---
 src/odc/Writer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/odc/Writer.h b/src/odc/Writer.h
index 8bb16d3..d35cd4f 100644
--- a/src/odc/Writer.h
+++ b/src/odc/Writer.h
@@ -54,7 +54,10 @@ public:
     ITERATOR* createWriteIterator(eckit::PathName, bool append = false);
 
     unsigned long rowsBufferSize() { return rowsBufferSize_; }
-    Writer& rowsBufferSize(unsigned long n) { rowsBufferSize_ = n; }
+    Writer& rowsBufferSize(unsigned long n) {
+        rowsBufferSize_ = n;
+        return *this;
+    }
 
     const eckit::PathName path() { return path_; }
 
-- 
2.43.0


From 447fe2e7711f01482364c7236e1b7895aff6810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 20/75] fix: buffers of the row writer hold the rows they are
 used for

---
 src/odc/WriterBufferingIterator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index eb0e8e4..cea5ca7 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -150,7 +150,7 @@ void WriterBufferingIterator::allocBuffers() {
 void WriterBufferingIterator::allocRowsBuffer() {
     rowDataSizeDoubles_ = rowDataSizeDoublesInternal();
     rowByteSize_        = rowDataSizeDoubles() * sizeof(double);
-    rowsBuffer_         = Buffer(rowsBufferSize_ * rowByteSize_);
+    rowsBuffer_         = Buffer(std::max(rowsBufferSize_, size_t(1)) * rowByteSize_);
     nextRowInBuffer_    = reinterpret_cast<unsigned char*>(rowsBuffer_.data());
 }
 
@@ -320,8 +320,9 @@ void WriterBufferingIterator::flush() {
 
     setOptimalCodecs();
 
-    // n.b. ensure that we leave space for the header in the worst case (data doesn't compress at all)
-    Buffer encodedBuffer(rowsBuffer_.size() + (sizeof(uint16_t) * rowsBufferSize_));
+    // n.b. ensure that we leave space for the row markers in the worst case (data doesn't compress at all)
+    size_t rowsInBuffer = (nextRowInBuffer_ - reinterpret_cast<unsigned char*>(rowsBuffer_.data())) / rowByteSize_;
+    Buffer encodedBuffer(rowsInBuffer * (rowByteSize_ + sizeof(uint16_t)));
     core::DataStream<core::SameByteOrder> encodedStream(encodedBuffer);
 
     // Iterate over stored rows, and re-encode them into the encodedBuffer
-- 
2.43.0


From d3aed31ac7dba2d44b464cccb55ae5e4f5650a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 21/75] fix: any header buffer size can be configured

---
 src/odc/core/Header.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index 4d95e31..eacc962 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -10,6 +10,8 @@
 
 #include "odc/core/Header.h"
 
+#include <algorithm>
+
 #include "eckit/io/Buffer.h"
 #include "eckit/io/DataHandle.h"
 #include "eckit/log/Log.h"
@@ -172,7 +174,7 @@ std::pair<eckit::Buffer, size_t> serializeHeaderInternal(size_t dataSize, size_t
 
     constexpr size_t initial_header_size = 9 + 8 + 4 + 32 + 4;
 
-    eckit::Buffer buffer(ODBAPISettings::instance().headerBufferSize());
+    eckit::Buffer buffer(std::max(ODBAPISettings::instance().headerBufferSize(), 2 * initial_header_size));
     bool serialised           = false;
     char* variableHeaderStart = 0;
     int32_t variableHeaderSize;
-- 
2.43.0


From 566d03dabc50b6364bb412f98adbfeb25dc37e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 22/75] fix: flushing the row writer leaves the row being
 composed alone

---
 src/odc/WriterBufferingIterator.cc | 15 ++++++++++++---
 src/odc/WriterBufferingIterator.h  |  1 +
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index cea5ca7..3d812e1 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -147,6 +147,16 @@ void WriterBufferingIterator::allocBuffers() {
     nrows_ = 0;
 }
 
+void WriterBufferingIterator::resetLastValues() {
+    // The first row of a frame is encoded relative to the missing values
+
+    ::memset(lastValues_, 0, rowDataSizeDoubles() * sizeof(double));
+    for (size_t i = 0; i < columns().size(); ++i)
+        lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();
+
+    nrows_ = 0;
+}
+
 void WriterBufferingIterator::allocRowsBuffer() {
     rowDataSizeDoubles_ = rowDataSizeDoublesInternal();
     rowByteSize_        = rowDataSizeDoubles() * sizeof(double);
@@ -327,6 +337,8 @@ void WriterBufferingIterator::flush() {
 
     // Iterate over stored rows, and re-encode them into the encodedBuffer
 
+    resetLastValues();
+
     size_t rowsWritten = 0;
     unsigned char* p   = reinterpret_cast<unsigned char*>(rowsBuffer_.data());
     while (p < nextRowInBuffer_) {
@@ -335,9 +347,6 @@ void WriterBufferingIterator::flush() {
         ++rowsWritten;
     }
 
-    // Clean up storage buffers for row data
-    allocBuffers();
-
     std::pair<Buffer, size_t> encodedHeader = serializeHeader(encodedStream.position(), rowsWritten);
     ASSERT(encodedHeader.second <= encodedHeader.first.size());
 
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 51d12e3..00dcb06 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -148,6 +148,7 @@ private:
     std::pair<eckit::Buffer, size_t> serializeHeader(size_t dataSize, size_t rowsNumber);
 
     void allocBuffers();
+    void resetLastValues();
     void allocRowsBuffer();
     void resetColumnsBuffer();
 
-- 
2.43.0


From 49dbbb8a61effe8275a181b9c4dd8eb1b2549dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 23/75] fix: a column's missing value outlives a flush and is
 copied with the column

---
 src/odc/core/Column.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Column.h b/src/odc/core/Column.h
index dca3ec4..ca73d05 100644
--- a/src/odc/core/Column.h
+++ b/src/odc/core/Column.h
@@ -11,6 +11,7 @@
 #ifndef odc_core_Column_H
 #define odc_core_Column_H
 
+#include <cmath>
 #include <memory>
 
 #include "eckit/os/BackTrace.h"
@@ -216,9 +217,12 @@ void Column::type(api::ColumnType t) {
 
 template <typename ByteOrder>
 void Column::resetCodec() {
-    int ds = dataSizeDoubles();  // Preserve byte size (part of type information)
+    int ds         = dataSizeDoubles();  // Preserve byte size (part of type information)
+    double missing = missingValue();     // ... and what stands for a missing value
     type<ByteOrder>(static_cast<api::ColumnType>(type_));
     dataSizeDoubles(ds);
+    if (type_ != api::STRING && !std::isnan(missing))
+        missingValue(missing);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From bf1130a02ddac6af06a47fc0ff38acb4be6da94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 24/75] fix: rows accepted before a change of columns are
 written with the columns they had

---
 src/odc/WriterBufferingIterator.cc | 31 +++++++++++++++++++++++++++---
 src/odc/WriterBufferingIterator.h  | 13 +++++--------
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 3d812e1..af5c8f7 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -138,9 +138,11 @@ void WriterBufferingIterator::allocBuffers() {
         // If we are trying to do anything before the writer is properly initialised ...
         ASSERT(columns_[i]->hasInitialisedCoder());
 
-        nextRow_[offset] = lastValues_[offset] = columns_[i]->missingValue();
-        columnOffsets_[i]                      = offset;
-        columnByteSizes_[i]                    = columns_[i]->dataSizeDoubles() * sizeof(double);
+        lastValues_[offset] = columns_[i]->missingValue();
+        if (columns_[i]->type() != STRING)
+            nextRow_[offset] = lastValues_[offset];
+        columnOffsets_[i]   = offset;
+        columnByteSizes_[i] = columns_[i]->dataSizeDoubles() * sizeof(double);
         offset += columns_[i]->dataSizeDoubles();
     }
 
@@ -164,7 +166,27 @@ void WriterBufferingIterator::allocRowsBuffer() {
     nextRowInBuffer_    = reinterpret_cast<unsigned char*>(rowsBuffer_.data());
 }
 
+void WriterBufferingIterator::flushPendingRows() {
+    if (initialisedColumns_)
+        flush();
+}
+
+const MetaData& WriterBufferingIterator::columns(const MetaData& md) {
+    flushPendingRows();
+    columns_ = md;
+    for (auto& col : columns_)
+        col->resetCodec<SameByteOrder>();  // We want to use the default codecs for encoding
+    initialisedColumns_ = columns_.allColumnsInitialised();
+    return columns_;
+}
+
+void WriterBufferingIterator::setNumberOfColumns(size_t n) {
+    flushPendingRows();
+    columns_.setSize(n);
+}
+
 void WriterBufferingIterator::writeHeader() {
+    flushPendingRows();
     allocBuffers();
 
     // If the calculated buffer size now is bigger than the size used for an
@@ -281,6 +303,7 @@ int WriterBufferingIterator::open() {
 
 int WriterBufferingIterator::setColumn(size_t index, std::string name, api::ColumnType type) {
     // LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::setColumn: " << std::endl;
+    flushPendingRows();
     ASSERT(index < columns().size());
     Column* col = columns_[index];
     ASSERT(col);
@@ -305,6 +328,7 @@ int WriterBufferingIterator::setColumn(size_t index, std::string name, api::Colu
 int WriterBufferingIterator::setBitfieldColumn(size_t index, std::string name, api::ColumnType type,
                                                eckit::sql::BitfieldDef b) {
     // LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::setBitfieldColumn: " << std::endl;
+    flushPendingRows();
     ASSERT(index < columns().size());
     Column* col = columns_[index];
     ASSERT(col);
@@ -316,6 +340,7 @@ int WriterBufferingIterator::setBitfieldColumn(size_t index, std::string name, a
 }
 
 void WriterBufferingIterator::missingValue(size_t i, double missingValue) {
+    flushPendingRows();
     ASSERT(i < columns().size());
     Column* col = columns_[i];
     ASSERT(col);
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 00dcb06..76584e2 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -71,15 +71,9 @@ public:
     int close();
 
     const core::MetaData& columns() const { return columns_; }
-    const core::MetaData& columns(const core::MetaData& md) {
-        columns_ = md;
-        for (auto& col : columns_)
-            col->resetCodec<core::SameByteOrder>();  // We want to use the default codecs for encoding
-        initialisedColumns_ = columns_.allColumnsInitialised();
-        return columns_;
-    }
+    const core::MetaData& columns(const core::MetaData& md);
 
-    void setNumberOfColumns(size_t n) { columns_.setSize(n); }
+    void setNumberOfColumns(size_t n);
 
     Owner& owner() { return owner_; }
 
@@ -109,6 +103,9 @@ public:
 
     void flush();
 
+    // The rows accepted so far have the columns as they are now, so write them before those change
+    void flushPendingRows();
+
     std::vector<eckit::PathName> outputFiles();
     bool next();
 
-- 
2.43.0


From 18e3d7255a62494de31fbc080ba73a3b632ab627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 25/75] fix: copying rows keeps bitfield members and missing
 values that change between frames

---
 src/odc/WriterBufferingIterator.cc | 12 ++++++++++++
 src/odc/WriterBufferingIterator.h  |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index af5c8f7..db3c881 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -149,6 +149,18 @@ void WriterBufferingIterator::allocBuffers() {
     nrows_ = 0;
 }
 
+bool WriterBufferingIterator::describedAlike(const MetaData& a, const MetaData& b) {
+    if (a != b)
+        return false;
+    for (size_t i = 0; i < a.size(); ++i) {
+        if (a[i]->type() == BITFIELD && a[i]->bitfieldDef() != b[i]->bitfieldDef())
+            return false;
+        if (a[i]->type() != STRING && a[i]->missingValue() != b[i]->missingValue())
+            return false;
+    }
+    return true;
+}
+
 void WriterBufferingIterator::resetLastValues() {
     // The first row of a frame is encoded relative to the missing values
 
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 76584e2..2ed50ae 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -146,6 +146,7 @@ private:
 
     void allocBuffers();
     void resetLastValues();
+    static bool describedAlike(const core::MetaData& a, const core::MetaData& b);
     void allocRowsBuffer();
     void resetColumnsBuffer();
 
@@ -197,7 +198,7 @@ unsigned long WriterBufferingIterator::pass1(T& it, const T& end) {
 
     unsigned long nrows = 0;
     for (; it != end; ++it, ++nrows) {
-        if (it->isNewDataset() && it->columns() != columns()) {
+        if (it->isNewDataset() && !describedAlike(it->columns(), columns())) {
             LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::pass1: Change of input metadata." << std::endl;
             flush();
             pass1init(it, end);
-- 
2.43.0


From 415454ccd4b040be2987ac5da4ec5582875b820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 26/75] fix: the row size is known after wider columns are set

---
 src/odc/WriterBufferingIterator.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index db3c881..8d3f50f 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -206,10 +206,9 @@ void WriterBufferingIterator::writeHeader() {
     // n.b. if zero, this is no problem as we allocate the buffer lazily in writeRow
 
     if (rowsBuffer_.size() != 0 && rowByteSize_ < rowDataSizeDoublesInternal() * sizeof(double)) {
-        rowDataSizeDoubles_ = 0;
-        rowByteSize_        = 0;
-        rowsBuffer_         = eckit::Buffer(0);
-        nextRowInBuffer_    = nullptr;
+        rowByteSize_     = 0;
+        rowsBuffer_      = eckit::Buffer(0);
+        nextRowInBuffer_ = nullptr;
     }
 
     for (size_t i = 0; i < columns_.size(); ++i) {
-- 
2.43.0


From 88d1821ce8a53a5d17bfa8e51995d2030ec835da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 27/75] fix: a failed write is reported and the row writer
 closes its output once

---
 src/odc/Indexer.cc                 |  2 ++
 src/odc/WriterBufferingIterator.cc | 52 +++++++++++++++++++++++++++---
 src/odc/WriterBufferingIterator.h  |  8 ++++-
 src/odc/odccapi.cc                 | 13 ++++++--
 src/odc/tools/MergeTool.cc         |  7 ++--
 5 files changed, 71 insertions(+), 11 deletions(-)

diff --git a/src/odc/Indexer.cc b/src/odc/Indexer.cc
index d5f59cd..7af348c 100644
--- a/src/odc/Indexer.cc
+++ b/src/odc/Indexer.cc
@@ -110,6 +110,8 @@ void Indexer::createIndex(const PathName& dataFile, const PathName& indexFile) {
             nRows = 0;
         }
     }
+
+    writer->close();
 }
 
 }  // namespace odc
diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 8d3f50f..5b9a172 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -48,7 +48,10 @@ WriterBufferingIterator::WriterBufferingIterator(Owner& owner, DataHandle* dh, b
     nextRowInBuffer_(0),
     rowsBufferSize_(owner.rowsBufferSize()),
     tableDef_(tableDef),
-    openDataHandle_(openDataHandle) {
+    failed_(false),
+    ownsDataHandle_(true),
+    closeDataHandle_(!openDataHandle),
+    closed_(false) {
     if (openDataHandle)
         open();
 }
@@ -71,13 +74,29 @@ WriterBufferingIterator::WriterBufferingIterator(Owner& owner, DataHandle& dh, b
     nextRowInBuffer_(0),
     rowsBufferSize_(owner.rowsBufferSize()),
     tableDef_(tableDef),
-    openDataHandle_(openDataHandle) {
+    failed_(false),
+    ownsDataHandle_(false),
+    closeDataHandle_(!openDataHandle),
+    closed_(false) {
     if (openDataHandle)
         open();
 }
 
 WriterBufferingIterator::~WriterBufferingIterator() {
-    close();
+    // n.b. Whoever needs to know that everything has been written calls close() explicitly
+    try {
+        close();
+    }
+    catch (std::exception& e) {
+        Log::error() << "Error writing " << path_ << ": " << e.what() << std::endl;
+    }
+    try {
+        if (ownsDataHandle_ || closeDataHandle_)
+            closeHandle();
+    }
+    catch (std::exception& e) {
+        Log::error() << "Error closing " << path_ << ": " << e.what() << std::endl;
+    }
     delete[] lastValues_;
     delete[] nextRow_;
     delete[] columnOffsets_;
@@ -239,6 +258,7 @@ double& WriterBufferingIterator::data(size_t i) {
 int WriterBufferingIterator::writeRow(const double* data, unsigned long nCols) {
     ASSERT(nCols == columns().size());
     ASSERT(initialisedColumns_);
+    checkWritable();
 
     if (rowsBuffer_.size() == 0)
         allocRowsBuffer();
@@ -364,6 +384,11 @@ void WriterBufferingIterator::flush() {
     if (nextRowInBuffer_ == rowsBuffer_ || rowsBuffer_.size() == 0)
         return;
 
+    // If this does not complete then an unknown part of the frame has been written. Anything written after that could
+    // not be read, so nothing more is accepted.
+    checkWritable();
+    failed_ = true;
+
     setOptimalCodecs();
 
     // n.b. ensure that we leave space for the row markers in the worst case (data doesn't compress at all)
@@ -404,8 +429,16 @@ void WriterBufferingIterator::flush() {
 
     columns_.resetCodecs<SameByteOrder>();
     columns_.resetStats();
+
+    failed_ = false;
 }
 
+void WriterBufferingIterator::checkWritable() const {
+    if (failed_)
+        throw WriteError("Rows have been lost in an earlier failure to write " + std::string(path_), Here());
+    if (closed_)
+        throw WriteError("Cannot write after the output has been closed " + std::string(path_), Here());
+}
 
 std::pair<Buffer, size_t> WriterBufferingIterator::serializeHeader(size_t dataSize, size_t rowsNumber) {
     return core::Header::serializeHeader(dataSize, rowsNumber, properties_, columns());
@@ -415,10 +448,19 @@ int WriterBufferingIterator::close() {
     if (initialisedColumns_)
         flush();
 
-    if (!openDataHandle_) {
+    if (closeDataHandle_)
+        closeHandle();
+    else if (ownsDataHandle_ && !closed_)
+        handle().flush();  // n.b. more rows may be written, so this is closed on destruction
+
+    return 0;
+}
+
+void WriterBufferingIterator::closeHandle() {
+    if (!closed_) {
+        closed_ = true;
         handle().close();
     }
-    return 0;
 }
 
 std::vector<eckit::PathName> WriterBufferingIterator::outputFiles() {
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 2ed50ae..0ef078d 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -166,9 +166,15 @@ private:
 
     const odc::sql::TableDef* tableDef_;
 
+    void checkWritable() const;
+    void closeHandle();
+
 private:
 
-    bool openDataHandle_;
+    bool failed_;  // A write has failed
+    bool ownsDataHandle_;
+    bool closeDataHandle_;  // The data handle is closed by close()
+    bool closed_;
 
     friend class IteratorProxy<WriterBufferingIterator, Owner>;
 };
diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index 05a5de0..48a5054 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -371,14 +371,21 @@ oda_write_iterator_ptr odb_create_write_iterator(oda_ptr co, const char* filenam
     DataHandle* fh = ODBAPISettings::instance().writeToFile(PathName(std::string(filename)), estimatedLength, true);
 
     // TODO: make sure there's no leaks (FileHandle)
-    Writer<>::iterator_class* w(new Writer<>::iterator_class(*o, fh, true));
+    Writer<>::iterator_class* w(new Writer<>::iterator_class(*o, fh, false));
     *err = !w;
     return oda_write_iterator_ptr(w);
 }
 
 int odb_write_iterator_destroy(oda_write_iterator_ptr wi) {
-    delete reinterpret_cast<Writer<>::iterator_class*>(wi);
-    return 0;
+    std::unique_ptr<Writer<>::iterator_class> w(reinterpret_cast<Writer<>::iterator_class*>(wi));
+    try {
+        // n.b. rows may still have to be written
+        return w ? w->close() : 0;
+    }
+    catch (std::exception& e) {
+        eckit::Log::error() << "odb_write_iterator_destroy: " << e.what() << std::endl;
+        return 1;
+    }
 }
 
 int odb_write_iterator_set_no_of_columns(oda_write_iterator_ptr wi, int n) {
diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index ac8ebaf..f63a168 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -98,8 +98,11 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
         for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
             I& in(iterators[ii].first);
             I& inEnd(iterators[ii].second);
-            if (!(in != inEnd))
-                return (void)(Log::info() << "Input file number " << ii << " ended." << std::endl);
+            if (!(in != inEnd)) {
+                Log::info() << "Input file number " << ii << " ended." << std::endl;
+                out->close();
+                return;
+            }
 
             for (size_t cn = 0; cn < in->columns().size(); ++cn) {
                 ASSERT(i < out->columns().size());
-- 
2.43.0


From 1e89c5d270f81f1d571351f202298bc501223139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 28/75] fix: import uses the delimiter it is given and reports
 failures to close its output

---
 src/odc/tools/ImportTool.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/odc/tools/ImportTool.cc b/src/odc/tools/ImportTool.cc
index 83dd7f0..eab22bf 100644
--- a/src/odc/tools/ImportTool.cc
+++ b/src/odc/tools/ImportTool.cc
@@ -78,9 +78,8 @@ void ImportTool::run() {
         FileHandle dh_out(outFile);
         dh_in.openForRead();
         AutoClose close_in(dh_in);
-        dh_out.openForWrite(0);
-        AutoClose close_out(dh_out);
-        size_t n = api::odbFromCSV(dh_in, dh_out);
+        size_t n = api::odbFromCSV(dh_in, dh_out, delimiter);  // n.b. opens the output
+        dh_out.close();
         Log::info() << "ImportTool::odbFromCSV: Copied " << n << " rows." << std::endl;
     }
     else {
-- 
2.43.0


From 522a55d70c7995d9681eab6a6dcb1e41d1254850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 29/75] fix: SQL output to ODB is written before the statement
 has been executed

---
 src/odc/sql/ODAOutput.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/odc/sql/ODAOutput.cc b/src/odc/sql/ODAOutput.cc
index b5c0168..745921b 100644
--- a/src/odc/sql/ODAOutput.cc
+++ b/src/odc/sql/ODAOutput.cc
@@ -55,6 +55,8 @@ void ODAOutput<WRITER>::flush() {}
 
 template <typename WRITER>
 void ODAOutput<WRITER>::cleanup(SQLSelect& sql) {
+    // n.b. if this does not succeed then rows are missing in the output
+    it_->close();
     sql.outputFiles((**it_).outputFiles());
 }
 
-- 
2.43.0


From dadf2a15dd475f4f4a8490afddae340b394db316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 30/75] fix: the position of an encoded stream does not count
 failed writes

---
 src/odc/api/odc.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 917eb01..95c12c3 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -1105,7 +1105,8 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
         long read(void*, long) override { NOTIMP; }
         long write(const void* buffer, long length) override {
             long written = fn_(handle_, buffer, length);
-            pos_ += written;
+            if (written > 0)
+                pos_ += written;
             return written;
         }
         Offset position() override { return pos_; }
@@ -1121,7 +1122,8 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
         dh.openForWrite(0);
         AutoClose closer(dh);
         odc_encode_to_data_handle(encoder, dh);
-        (*bytes_encoded) = dh.position();
+        if (bytes_encoded)
+            (*bytes_encoded) = dh.position();
     });
 }
 
-- 
2.43.0


From a17efd86f1aaf21ada40fff38429f769134335ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 31/75] fix: presorted split takes all of the frames of its
 input

---
 src/odc/tools/SplitTool.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 9c9692a..39be998 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -84,18 +84,19 @@ vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_
         LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: " << offset << " " << length << endl;
 
         size_t size(numberOfRows * numberOfColumns * sizeof(double));
-        if (currentSize + size > maxExpandedSize) {
+        if (currentLength > Length(0) && currentSize + size > maxExpandedSize) {
             LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: collect " << currentOffset << " " << currentLength << endl;
             r.push_back(make_pair(currentOffset, currentLength));
             currentOffset = offset;
             currentLength = length;
+            currentSize   = size;
         }
         else {
             currentLength += length;
-            currentSize += numberOfRows * numberOfColumns * sizeof(double);
+            currentSize += size;
         }
     }
-    if (r.size() == 0 || r.back().first != currentOffset)
+    if (currentLength > Length(0))
         r.push_back(make_pair(currentOffset, currentLength));
     return r;
 }
-- 
2.43.0


From 0dc25e6cf3f87a63aebc6590b779dcce76ca6acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 32/75] fix: splitting puts every row into the output named by
 its values

---
 src/odc/Comparator.h                 |   5 +-
 src/odc/WriterBufferingIterator.h    |   4 +-
 src/odc/WriterDispatchingIterator.cc | 393 +++++++++++++++------------
 src/odc/WriterDispatchingIterator.h  |  22 +-
 src/odc/tools/SplitTool.cc           |  10 +-
 5 files changed, 239 insertions(+), 195 deletions(-)

diff --git a/src/odc/Comparator.h b/src/odc/Comparator.h
index 51ec346..d9db582 100644
--- a/src/odc/Comparator.h
+++ b/src/odc/Comparator.h
@@ -39,6 +39,8 @@ public:
 
     Comparator(bool skipTestingHaveMissing = false);
 
+    void NaN_isOK(bool b) { NaN_isOK_ = b; }
+
     void operator()() { run(); }
     void run();
 
@@ -77,7 +79,8 @@ public:
         return relativeError;
     }
 
-    inline static int same(double A, double B) { return err(A, B) < maxRelativeError; }
+    // n.b. A == B is true also for infinity
+    inline static int same(double A, double B) { return A == B || err(A, B) < maxRelativeError; }
 
     void raiseNotEqual(const core::Column&, double, double);
 
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 0ef078d..7fbc473 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -113,6 +113,9 @@ public:
     // to restart the encoding process
     void flushAndResetColumnSizes(const std::map<std::string, size_t>& resetColumnSizeDoubles);
 
+    // Columns with the same description can be encoded in the same frame
+    static bool describedAlike(const core::MetaData& a, const core::MetaData& b);
+
 private:
 
     size_t rowDataSizeDoublesInternal() const;
@@ -146,7 +149,6 @@ private:
 
     void allocBuffers();
     void resetLastValues();
-    static bool describedAlike(const core::MetaData& a, const core::MetaData& b);
     void allocRowsBuffer();
     void resetColumnsBuffer();
 
diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index db163f4..dd9dd4b 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -8,6 +8,10 @@
  * does it submit to any jurisdiction.
  */
 
+#include <algorithm>
+#include <cstring>
+#include <exception>
+
 #include "eckit/log/Log.h"
 #include "eckit/log/Timer.h"
 #include "eckit/utils/Translator.h"
@@ -35,17 +39,17 @@ WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::WriterDispatchingIterator(OWNE
     nrows_(0),
     outputFileTemplate_(owner_.outputFileTemplate()),
     properties_(),
-    dispatchedIndexes_(),
-    values2iteratorIndex_(),
-    lastDispatch_(maxOpenFiles, -1),
-    iteratorIndex2fileName_(maxOpenFiles),
+    dispatchedData_(),
+    fileName2iteratorIndex_(),
+    lastDispatch_(),
+    dispatchCount_(0),
     lastDispatchedValues_(),
-    lastIndex_(),
+    lastIndex_(-1),
     initialized_(false),
     append_(append),
     refCount_(0),
     iterators_(),
-    files_(),
+    iteratorFileNames_(),
     templateParameters_(),
     maxOpenFiles_(maxOpenFiles),
     filesCreated_() {}
@@ -89,48 +93,43 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
     // function is declared in an annonymos workspace the declaration is marked as unneeded and emits
     // a warning.
     //      TODO: Put somewhere better.
-    static const auto trimStringInDouble = [](char*& p, size_t& len) {
+    static const auto trimString = [](const char*& p, size_t maxLen, size_t& len) {
         len = 0;
-        for (; len < sizeof(double) && isprint(p[len]); ++len)
+        for (; len < maxLen && isprint(p[len]); ++len)
             ;
         for (; len > 0 && isspace(p[len - 1]); --len)
             ;
-        size_t plen = len;
-        for (char* pp = p; isspace(*p) && p < pp + plen;) {
+        for (; len > 0 && isspace(*p); --len)
             ++p;
-            --len;
-        }
     };
-    std::string fileName(outputFileTemplate_);
-    int diff(0);
-    for (TemplateParameters::iterator it(templateParameters_.begin()); it != templateParameters_.end(); ++it) {
-        TemplateParameter& p(*(*it));
+
+    std::string fileName;
+    size_t templatePos(0);
+    for (size_t i = 0; i < templateParameters_.size(); ++i) {
+        const TemplateParameter& p(*templateParameters_[i]);
+        const double* data = values + dispatchedData_[i].first;
 
         // TODO: if values collected can be of different type then integer,
         // then below code must be updated:
         // code updated for std::string [19/07/2011] AF
-        double d(values[p.columnIndex]);
         std::string s;
         if (columns_[p.columnIndex]->type() == api::STRING) {
-            char* sp(reinterpret_cast<char*>(&d));
+            const char* sp(reinterpret_cast<const char*>(data));
             size_t len(0);
-            trimStringInDouble(sp, len);
-            s = std::string(sp, len);
-            while (s.find("/") != std::string::npos) {
-                std::string old(s);
-                size_t pos(s.find("/"));
-                s.replace(pos, pos + 1, std::string("__SLASH__"));
-                // eckit::Log::info() << "WriterDispatchingIterator::generateFileName: '" << old << "' => '" << s << "'"
-                // << std::endl;
-            }
+            trimString(sp, dispatchedData_[i].second * sizeof(double), len);
+            s          = std::string(sp, len);
+            size_t pos = 0;
+            while ((pos = s.find("/", pos)) != std::string::npos)
+                s.replace(pos, 1, "__SLASH__");
         }
         else {
-            s = eckit::Translator<int, std::string>()(int(d));
+            s = eckit::Translator<int, std::string>()(int(*data));
         }
 
-        fileName.replace(p.startPos - diff, p.endPos - p.startPos + 1, s);
-        diff = outputFileTemplate_.size() - fileName.size();
+        fileName += outputFileTemplate_.substr(templatePos, p.startPos - templatePos) + s;
+        templatePos = p.endPos + 1;
     }
+    fileName += outputFileTemplate_.substr(templatePos);
 
     // LOG_DEBUG_LIB(LibOdc) << "WriterDispatchingIterator::generateFileName: fileName = " << fileName <<  std::endl;
     return fileName;
@@ -144,93 +143,81 @@ WRITE_ITERATOR& WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatch(const
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatchIndex(const double* values, unsigned long count) {
     Values dispatchedValues;
-    for (size_t i(0); i < dispatchedIndexes_.size(); ++i)
-        dispatchedValues.push_back(values[dispatchedIndexes_[i]]);
+    for (const auto& data : dispatchedData_)
+        dispatchedValues.insert(dispatchedValues.end(), values + data.first, values + data.first + data.second);
 
-    if (dispatchedValues == lastDispatchedValues_)
-        return lastIndex_;
+    if (lastIndex_ == -1 || dispatchedValues.size() != lastDispatchedValues_.size() ||
+        ::memcmp(dispatchedValues.data(), lastDispatchedValues_.data(), dispatchedValues.size() * sizeof(double)) != 0) {
 
-    Values2IteratorIndex::iterator p(values2iteratorIndex_.find(dispatchedValues));
-    size_t iteratorIndex((p != values2iteratorIndex_.end())
-                             ? p->second
-                             : createIterator(dispatchedValues, generateFileName(values, count)));
+        // n.b. different values may result in the same file name
 
-    lastDispatchedValues_        = dispatchedValues;
-    lastIndex_                   = iteratorIndex;
-    lastDispatch_[iteratorIndex] = nrows_;
-    return iteratorIndex;
+        const std::string fileName(generateFileName(values, count));
+        const auto p          = fileName2iteratorIndex_.find(fileName);
+        lastIndex_            = (p != fileName2iteratorIndex_.end()) ? p->second : createIterator(fileName);
+        lastDispatchedValues_ = dispatchedValues;
+    }
+
+    lastDispatch_[lastIndex_] = ++dispatchCount_;
+    return lastIndex_;
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
-int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Values& dispatchedValues,
-                                                                     const std::string& fileName) {
-    int iteratorIndex(iterators_.size());
-    if (iterators_.size() >= maxOpenFiles_) {
-        ASSERT(iterators_.size());
+int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const std::string& fileName) {
 
-        size_t oldest(0);
-        unsigned long long oldestRow(lastDispatch_[oldest]);
-        for (size_t i = oldest; i < lastDispatch_.size(); ++i) {
-            if (lastDispatch_[i] < oldestRow) {
-                oldestRow = lastDispatch_[i];
-                oldest    = i;
-            }
-        }
-        iteratorIndex = oldest;
+    lastIndex_ = -1;
 
-        LOG_DEBUG_LIB(LibOdc) << "split writer: evicted iterator " << iteratorIndex << "' "
-                              << iteratorIndex2fileName_[iteratorIndex] << "' "
-                              << " (oldest row: " << oldestRow << "), nrows_=" << nrows_ << std::endl;
+    // Reuse the slot of an iterator that could not be created, or evict the one which has not been used for longest
 
-        delete iterators_[iteratorIndex];
-        iterators_[iteratorIndex] = 0;
+    int iteratorIndex(std::find(iterators_.begin(), iterators_.end(), nullptr) - iterators_.begin());
+    if (iteratorIndex == int(iterators_.size()) && iteratorIndex >= maxOpenFiles_) {
+        ASSERT(iterators_.size());
+        iteratorIndex = std::min_element(lastDispatch_.begin(), lastDispatch_.end()) - lastDispatch_.begin();
 
-        Values2IteratorIndex::iterator vit(values2iteratorIndex_.begin());
-        for (; vit != values2iteratorIndex_.end(); ++vit)
-            if (vit->second == iteratorIndex)
-                break;
-        values2iteratorIndex_.erase(vit);
-    }
+        LOG_DEBUG_LIB(LibOdc) << "split writer: evicted iterator " << iteratorIndex << "' "
+                              << iteratorFileNames_[iteratorIndex] << "' "
+                              << " (last used: " << lastDispatch_[iteratorIndex] << "), nrows_=" << nrows_ << std::endl;
 
-    std::string operation;
-    // bool append = false;
-    if (append_ || !eckit::PathName(fileName).exists()) {
-        filesCreated_[fileName] = 1;
-        operation               = "creating";
-    }
-    else {
-        if (filesCreated_.find(fileName) == filesCreated_.end()) {
-            filesCreated_[fileName] = 1;
-            operation               = "overwriting";
-        }
-        else {
-            append_ = true;
-            filesCreated_[fileName]++;
-            operation = "appending";
-        }
+        closeIterator(iteratorIndex);
     }
 
-    LOG_DEBUG_LIB(LibOdc) << iteratorIndex << ": " << operation << " '" << fileName << "'" << std::endl;
+    // A file which has been created by us must be extended. Any other existing file is overwritten.
 
-    if (iteratorIndex == iterators_.size()) {
-        iterators_.push_back(iteratorsOwner_.createWriteIterator(fileName, append_));
-        files_.push_back(fileName);
-    }
-    else {
-        iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append_);
-        files_[iteratorIndex]     = fileName;
-        // ASSERT(files_[iteratorIndex] == fileName);
+    const bool append = append_ || filesCreated_.find(fileName) != filesCreated_.end();
+
+    LOG_DEBUG_LIB(LibOdc) << iteratorIndex << ": " << (append ? "appending" : "creating") << " '" << fileName << "'"
+                          << std::endl;
+
+    if (iteratorIndex == int(iterators_.size())) {
+        iterators_.push_back(nullptr);
+        iteratorFileNames_.push_back(std::string());
+        lastDispatch_.push_back(0);
     }
-    values2iteratorIndex_[dispatchedValues] = iteratorIndex;
-    iteratorIndex2fileName_[iteratorIndex]  = fileName;
+
+    iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append);
+    filesCreated_[fileName]++;
+    iteratorFileNames_[iteratorIndex] = fileName;
+    fileName2iteratorIndex_[fileName] = iteratorIndex;
 
     // Prop. metadata
+    for (const auto& kv : properties_)
+        iterators_[iteratorIndex]->property(kv.first, kv.second);
     iterators_[iteratorIndex]->columns(columns());
     iterators_[iteratorIndex]->writeHeader();
 
     return iteratorIndex;
 }
 
+template <typename WRITE_ITERATOR, typename OWNER>
+void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::closeIterator(size_t iteratorIndex) {
+    std::unique_ptr<WRITE_ITERATOR> it(iterators_[iteratorIndex]);
+    iterators_[iteratorIndex] = nullptr;
+    lastIndex_                = -1;
+    if (it) {
+        fileName2iteratorIndex_.erase(iteratorFileNames_[iteratorIndex]);
+        it->close();
+    }
+}
+
 template <typename WRITE_ITERATOR, typename OWNER>
 std::vector<eckit::PathName> WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::outputFiles() {
     std::vector<eckit::PathName> paths;
@@ -270,14 +257,20 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::writeHeader() {
     columnOffsets_ = new size_t[count];
     ASSERT(lastValues_);
 
+    ::memset(lastValues_, 0, numDoubles * sizeof(double));
+    ::memset(nextRow_, 0, numDoubles * sizeof(double));
+
     size_t offset = 0;
     for (int i(0); i < count; i++) {
-        nextRow_[i] = lastValues_[i] = columns_[i]->missingValue();
-        columnOffsets_[i]            = offset;
+        lastValues_[offset] = columns_[i]->missingValue();
+        if (columns_[i]->type() != api::STRING)
+            nextRow_[offset] = lastValues_[offset];
+        columnOffsets_[i] = offset;
         offset += columns_[i]->dataSizeDoubles();
     }
 
-    nrows_ = 0;
+    nrows_       = 0;
+    initialized_ = false;
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
@@ -294,9 +287,20 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::parseTemplateParameters()
         ss << "No parameters in output file template '" << outputFileTemplate_ << "'" << std::endl;
         throw eckit::UserError(ss.str());
     }
-    dispatchedIndexes_.clear();
-    for (size_t i(0); i < templateParameters_.size(); ++i)
-        dispatchedIndexes_.push_back(templateParameters_[i]->columnIndex);
+
+    std::vector<size_t> offsets;
+    size_t offset = 0;
+    for (const auto& column : columns()) {
+        offsets.push_back(offset);
+        offset += column->dataSizeDoubles();
+    }
+
+    dispatchedData_.clear();
+    for (const auto& param : templateParameters_)
+        dispatchedData_.push_back(
+            std::make_pair(offsets[param->columnIndex], columns()[param->columnIndex]->dataSizeDoubles()));
+
+    lastIndex_   = -1;
     initialized_ = true;
 }
 
@@ -391,8 +395,9 @@ type, eckit::sql::BitfieldDef b)
 
 template <typename WRITE_ITERATOR, typename OWNER>
 const MetaData& WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::columns(const MetaData& md) {
-    columns_ = md;
-    return md;
+    columns_     = md;
+    initialized_ = false;
+    return columns_;
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
@@ -404,19 +409,15 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::missingValue(size_t i, do
     col->missingValue(missingValue);
 }
 
-template <>
+template <typename WRITE_ITERATOR, typename OWNER>
 template <typename T>
-unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::pass1(T& it, const T& end) {
+unsigned long WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::pass1(T& it, const T& end) {
     if (!(it != end)) {
         eckit::Log::warning() << "Split: No input data." << std::endl;
         return 0;
     }
 
-    // Copy columns from the input iterator.
-    columns(it->columns());
-
-    if (!initialized_)
-        parseTemplateParameters();
+    resetColumns(it->columns());
 
     size_t maxcols = columns().size();
     ASSERT(maxcols > 0);
@@ -426,16 +427,8 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
 
     nrows_ = 0;
     for (; it != end; ++it) {
-        if (it->isNewDataset() && columns() != it->columns()) {
-            columns(it->columns());
-            parseTemplateParameters();
-
-            for (size_t i = 0; i < iterators_.size(); ++i) {
-                iterators_[i]->flush();
-                iterators_[i]->columns(columns());
-                iterators_[i]->writeHeader();
-            }
-        }
+        if (it->isNewDataset())
+            resetColumns(it->columns());
 
         const double* data(it->data());
         size_t size(it->columns().size());
@@ -447,92 +440,122 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
     return nrows_;
 }
 
+template <typename WRITE_ITERATOR, typename OWNER>
+void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::resetColumns(const MetaData& md) {
+    if (columns().size() != 0 && WRITE_ITERATOR::describedAlike(md, columns()))
+        return;
+
+    columns(md);
+    for (const auto& it : iterators_) {
+        if (it) {
+            it->columns(columns());  // n.b. writes the rows which have the previous columns
+            it->writeHeader();
+        }
+    }
+}
+
 template <typename WRITE_ITERATOR, typename OWNER>
 void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::flushAndResetColumnSizes(
     const std::map<std::string, size_t>& resetColumnSizeDoubles) {
-    for (size_t i = 0; i < iterators_.size(); ++i) {
-        iterators_[i]->flushAndResetColumnSizes(resetColumnSizeDoubles);
+    for (const auto& it : iterators_) {
+        if (it)
+            it->flushAndResetColumnSizes(resetColumnSizeDoubles);
     }
+
+    for (const auto& kv : resetColumnSizeDoubles)
+        columns_.columnByName(kv.first)->dataSizeDoubles(kv.second);
+
+    writeHeader();
 }
 
 
-template <>
-template <typename T>
-void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::verify(T& it, const T& end) {
+template <typename WRITE_ITERATOR, typename OWNER>
+void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::verify(Reader& input) {
     using namespace eckit;
     using namespace std;
     Log::info() << "Verifying split..." << endl;
     Timer timer("Split verification");
 
-    // Copy columns from the input iterator.
-    columns(it->columns());
-
-    vector<Reader*> readers;
-    vector<pair<Reader::iterator, Reader::iterator> > iterators;
-    for (size_t i(0); i < files_.size(); ++i) {
-        Reader* reader(new Reader(files_[i]));
-        readers.push_back(reader);
-        iterators.push_back(make_pair(reader->begin(), reader->end()));
-    }
-
-    vector<size_t> rowsRead(files_.size());
-
     // Frames in the source/dispatched cases will have different sizes, so the haveMissing()
     // value may differ. Only compare the values
     bool skipTestingHaveMissing = true;
     Comparator comparator(skipTestingHaveMissing);
+    comparator.NaN_isOK(true);
 
     unsigned long numberOfDifferences(0);
-    long long i(0);
-    for (; it != end; ++i) {
-        if (it->isNewDataset() && columns() != it->columns()) {
-            columns(it->columns());
-            parseTemplateParameters();
+    long long nrows(0);
+
+    // n.b. the input is read again for each group of output files that can be open at the same time
+
+    for (auto f = filesCreated_.begin(); f != filesCreated_.end();) {
+
+        map<string, pair<unique_ptr<Reader>, Reader::iterator>> outputs;
+        for (; f != filesCreated_.end() && (outputs.empty() || int(outputs.size()) < maxOpenFiles_); ++f) {
+            unique_ptr<Reader> reader(new Reader(f->first));
+            Reader::iterator begin(reader->begin());
+            outputs.emplace(f->first, make_pair(move(reader), begin));
         }
 
-        size_t fileIndex(dispatchIndex(it->data(), it->columns().size()));
-        const std::string& outFileName(files_[fileIndex]);
+        Reader::iterator it(input.begin());
+        Reader::iterator end(input.end());
 
-        size_t n(columns().size());
-        typedef Reader::iterator I;
-        std::pair<I, I>& its(iterators[fileIndex]);
-        I &sIt(its.first), sEnd(its.second);
+        columns(it->columns());
+        parseTemplateParameters();
 
-        const MetaData& sMetaData(sIt->columns());
-        try {
-            ASSERT(sIt != sEnd);
-
-            // In the parent codec, we will always have the largest data size (e.g. for
-            // the longest string). This will not be true in the dispatched iterators
-            // which will only be large enough for the strings dispatched to them.
-            bool compareDataSizes = false;
-            ASSERT(sMetaData.equals(columns(), compareDataSizes));
-
-            ++rowsRead[fileIndex];
-            const double* const originalData(it->data());
-            const double* const outputData(sIt->data());
-            comparator.compare(n, originalData, outputData, columns(), sMetaData);
+        long long i(0);
+        for (; it != end; ++it, ++i) {
+            if (it->isNewDataset() && columns() != it->columns()) {
+                columns(it->columns());
+                parseTemplateParameters();
+            }
+
+            auto output = outputs.find(generateFileName(it->data(), columns().size()));
+            if (output == outputs.end())
+                continue;
+
+            Reader::iterator& sIt(output->second.second);
+            try {
+                ASSERT(sIt != end);
+
+                // In the parent codec, we will always have the largest data size (e.g. for
+                // the longest string). This will not be true in the dispatched iterators
+                // which will only be large enough for the strings dispatched to them.
+                bool compareDataSizes = false;
+                const MetaData& sMetaData(sIt->columns());
+                ASSERT(sMetaData.equals(columns(), compareDataSizes));
+
+                comparator.compare(columns().size(), it->data(), sIt->data(), columns(), sMetaData);
+            }
+            catch (std::exception& e) {
+                ++numberOfDifferences;
+                Log::info() << "Row " << i << " of input not correct in " << output->first << ": " << e.what() << endl
+                            << endl;
+            }
+            if (sIt != end)
+                ++sIt;
         }
-        catch (...) {
-            ++numberOfDifferences;
-            Log::info() << "Row " << i << " of input (" << rowsRead[fileIndex] << " of " << outFileName
-                        << ") not correct." << endl
-                        << endl;
+        nrows = i;
+
+        for (auto& output : outputs) {
+            if (output.second.second != end) {
+                ++numberOfDifferences;
+                Log::info() << output.first << " has got more rows than the input" << endl;
+            }
         }
-        ++it;
-        ++sIt;
     }
-    Log::info() << "Number of rows: " << i << ". Total number of differences: " << numberOfDifferences << std::endl;
-    ASSERT(!(it != end));
 
-    for (size_t j = 0; j < readers.size(); ++j)
-        delete readers[j];
+    Log::info() << "Number of rows: " << nrows << ". Total number of differences: " << numberOfDifferences << std::endl;
+    if (numberOfDifferences != 0)
+        throw SeriousBug("The output of split is not the same as its input", Here());
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
 void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::property(std::string key, std::string value) {
-    // TODO: save property, make sure they are propagated to iterators as they are created
     properties_[key] = value;
+    for (const auto& it : iterators_) {
+        if (it)
+            it->property(key, value);
+    }
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
@@ -543,14 +566,26 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::property(std::stri
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::close() {
     // LOG_DEBUG_LIB(LibOdc) << "WriterDispatchingIterator<WRITE_ITERATOR>::close()" << std::endl;
-    int rc = 0;
-    for (typename Iterators::iterator it = iterators_.begin(); it != iterators_.end(); ++it) {
-        rc |= (*it)->close();
-        delete *it;
+
+    // n.b. close all of them, even if that fails for some
+
+    std::exception_ptr failure;
+    for (size_t i = 0; i < iterators_.size(); ++i) {
+        try {
+            closeIterator(i);
+        }
+        catch (...) {
+            if (!failure)
+                failure = std::current_exception();
+        }
     }
     iterators_.clear();
+    iteratorFileNames_.clear();
+    lastDispatch_.clear();
 
-    return rc;
+    if (failure)
+        std::rethrow_exception(failure);
+    return 0;
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/odc/WriterDispatchingIterator.h b/src/odc/WriterDispatchingIterator.h
index 82c2f64..13ab406 100644
--- a/src/odc/WriterDispatchingIterator.h
+++ b/src/odc/WriterDispatchingIterator.h
@@ -35,11 +35,11 @@ class DataHandle;
 namespace odc {
 
 class TemplateParameters;
+class Reader;
 
 template <typename WRITE_ITERATOR, typename OWNER>
 class WriterDispatchingIterator {
     typedef std::vector<double> Values;
-    typedef std::map<Values, int> Values2IteratorIndex;
     typedef std::vector<WRITE_ITERATOR*> Iterators;
 
 public:
@@ -60,8 +60,8 @@ public:
 
     template <typename T>
     unsigned long pass1(T&, const T&);
-    template <typename T>
-    void verify(T&, const T&);
+    /// Check that the files hold the rows of the input. n.b. to be called once they have been closed
+    void verify(Reader& input);
     unsigned long gatherStats(const double* values, unsigned long count);
 
     int close();
@@ -107,7 +107,11 @@ protected:
     /// Find iterator data should be dispatched to.
     WRITE_ITERATOR& dispatch(const double* values, unsigned long count);
     int dispatchIndex(const double* values, unsigned long count);
-    int createIterator(const Values& dispatchedValues, const std::string& fileName);
+    int createIterator(const std::string& fileName);
+    void closeIterator(size_t iteratorIndex);
+
+    void resetColumns(const core::MetaData& md);
+
 
     std::string generateFileName(const double* values, unsigned long count);
 
@@ -122,10 +126,10 @@ protected:
 
     core::Properties properties_;
 
-    std::vector<int> dispatchedIndexes_;
-    Values2IteratorIndex values2iteratorIndex_;
-    std::vector<unsigned long long> lastDispatch_;
-    std::vector<std::string> iteratorIndex2fileName_;
+    std::vector<std::pair<size_t, size_t>> dispatchedData_;  // offset and size in doubles
+    std::map<std::string, int> fileName2iteratorIndex_;
+    std::vector<unsigned long long> lastDispatch_;  // for each iterator
+    unsigned long long dispatchCount_;
 
     Values lastDispatchedValues_;
     int lastIndex_;
@@ -143,7 +147,7 @@ private:
     int refCount_;
 
     Iterators iterators_;
-    std::vector<eckit::PathName> files_;
+    std::vector<std::string> iteratorFileNames_;
 
     TemplateParameters templateParameters_;
     int maxOpenFiles_;
diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 39be998..e7cbbbd 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -132,6 +132,7 @@ void SplitTool::presortAndSplit(const PathName& inFile, const std::string& outFi
         odc::Select in(sql, h);
         outIt->pass1(in.begin(), in.end());
     }
+    outIt->close();
 }
 
 void SplitTool::split(const PathName& inFile, const std::string& outFileTemplate, size_t maxOpenFiles, bool verify) {
@@ -141,12 +142,11 @@ void SplitTool::split(const PathName& inFile, const std::string& outFileTemplate
     odc::DispatchingWriter::iterator outIt(out.begin());
     outIt->pass1(in.begin(), in.end());
 
-    odc::Reader input(inFile);
-    odc::Reader::iterator begin(input.begin());
-    odc::Reader::iterator end(input.end());
     outIt->close();
-    if (verify)
-        (**outIt).verify(begin, end);
+    if (verify) {
+        odc::Reader input(inFile);
+        (**outIt).verify(input);
+    }
 }
 
 }  // namespace tool
-- 
2.43.0


From 5bf2720dce2de4078b79eb425a04ec71a995d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 33/75] fix: a failed write is not silently repeated

---
 src/odc/WriterBufferingIterator.cc | 10 ++++++----
 src/odc/core/Encoder.cc            |  8 ++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 5b9a172..5131164 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -413,10 +413,12 @@ void WriterBufferingIterator::flush() {
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: header size: " << encodedHeader.second << std::endl;
 
-    ASSERT(dataHandle().write(encodedHeader.first, encodedHeader.second) ==
-           long(encodedHeader.second));  // Write header
-    ASSERT(dataHandle().write(encodedBuffer, encodedStream.position()) ==
-           encodedStream.position());  // Write encoded data
+    // n.b. ASSERT evaluates an expression that does not hold twice. Don't do the writing in there.
+
+    long headerWritten = dataHandle().write(encodedHeader.first, encodedHeader.second);
+    ASSERT(headerWritten == long(encodedHeader.second));
+    long dataWritten = dataHandle().write(encodedBuffer, encodedStream.position());
+    ASSERT(dataWritten == long(encodedStream.position()));
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: flushed " << rowsWritten << " rows." << std::endl;
 
diff --git a/src/odc/core/Encoder.cc b/src/odc/core/Encoder.cc
index f5934fc..7e61d3b 100644
--- a/src/odc/core/Encoder.cc
+++ b/src/odc/core/Encoder.cc
@@ -114,8 +114,12 @@ void encodeFrame(eckit::DataHandle& out, const std::vector<api::ColumnInfo>& col
 
     // And output the data
 
-    ASSERT(out.write(encodedHeader.first, encodedHeader.second) == long(encodedHeader.second));
-    ASSERT(out.write(encodedBuffer, encodedStream.position()) == encodedStream.position());
+    // n.b. ASSERT evaluates an expression that does not hold twice. Don't do the writing in there.
+
+    long headerWritten = out.write(encodedHeader.first, encodedHeader.second);
+    ASSERT(headerWritten == long(encodedHeader.second));
+    long dataWritten = out.write(encodedBuffer, encodedStream.position());
+    ASSERT(dataWritten == long(encodedStream.position()));
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From a1f7c588ddb0051d7cedb55edd33053663cff3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 34/75] fix: the bytes encoded to a file descriptor are
 counted, not taken from its position

---
 src/odc/api/odc.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 95c12c3..872d226 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -1127,15 +1127,14 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
     });
 }
 
+static long write_to_file_descriptor(void* fd, const void* buffer, long length) {
+    return ::write(*static_cast<int*>(fd), buffer, length);
+}
+
 int odc_encode_to_file_descriptor(odc_encoder_t* encoder, int fd, long* bytes_encoded) {
-    return wrapApiFunction([encoder, fd, bytes_encoded] {
-        FileDescHandle dh(fd);
-        dh.openForWrite(0);
-        AutoClose closer(dh);
-        odc_encode_to_data_handle(encoder, dh);
-        if (bytes_encoded)
-            (*bytes_encoded) = dh.position();
-    });
+    // n.b. The position of the descriptor does not tell what has been encoded. There may be something before it
+    // already (also with O_APPEND), and a pipe has got none.
+    return odc_encode_to_stream(encoder, &fd, &write_to_file_descriptor, bytes_encoded);
 }
 
 int odc_encode_to_buffer(odc_encoder_t* encoder, void* buffer, long length, long* bytes_encoded) {
-- 
2.43.0


From 9769307620f102d8bc31d5eb66a51ced52da5589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 35/75] fix: presorted split can open its input

---
 src/odc/tools/SplitTool.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index e7cbbbd..3a82911 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -127,9 +127,8 @@ void SplitTool::presortAndSplit(const PathName& inFile, const std::string& outFi
     vector<std::pair<Offset, Length> > chunks(getChunks(inFile));
     for (size_t i = 0; i < chunks.size(); ++i) {
         PartFileHandle h(inFile, chunks[i].first, chunks[i].second);
-        h.openForRead();
+        odc::Select in(sql, h);  // n.b. opens the handle
         AutoClose closer(h);
-        odc::Select in(sql, h);
         outIt->pass1(in.begin(), in.end());
     }
     outIt->close();
-- 
2.43.0


From 7a7d7f238c29b54b963ac0e9b4f2945a6dd022e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 36/75] fix: equal strings compare equal whatever the missing
 values of their columns

---
 src/odc/Comparator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/odc/Comparator.cc b/src/odc/Comparator.cc
index 2f2641f..f904a09 100644
--- a/src/odc/Comparator.cc
+++ b/src/odc/Comparator.cc
@@ -141,11 +141,13 @@ void Comparator::compare(int nCols, const double* data1, const double* data2, co
                 isMissing2                      = (*punned_val2 == *punned_missing2);
             }
 
-            if (isMissing1 != isMissing2) {
+            // n.b. equal strings are the same whichever missing value has been declared for their columns
+
+            if (isMissing1 != isMissing2 && type != STRING) {
                 raiseNotEqual(column, *pdata1, *pdata2);
             }
 
-            if (!isMissing1 && !isMissing2) {
+            if (!isMissing1 || !isMissing2) {
                 switch (type) {
                     case STRING: {
 
-- 
2.43.0


From fd95b1b1df4aa4e998bfcb4be43c9c00d109c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 37/75] fix: presorted split takes frames whose columns change

---
 src/odc/tools/SplitTool.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 3a82911..bc3f850 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -61,6 +61,9 @@ void SplitTool::run() {
 }
 
 /**
+ * Consecutive frames which have got the same columns. n.b. sorting requires that, as the types and sizes of the columns
+ * sorted are those of the first frame
+ *
  * @param maxExpandedSize maximum size of the data in chunks after decoding
  */
 vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_t maxExpandedSize) {
@@ -74,6 +77,7 @@ vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_
     Offset currentOffset(0);
     Length currentLength(0);
     size_t currentSize(0);
+    core::MetaData currentColumns(0);
 
     for (; it != end; ++it) {
         Offset offset(it->startPosition());
@@ -84,7 +88,8 @@ vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_
         LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: " << offset << " " << length << endl;
 
         size_t size(numberOfRows * numberOfColumns * sizeof(double));
-        if (currentLength > Length(0) && currentSize + size > maxExpandedSize) {
+        if (currentLength > Length(0) && (currentSize + size > maxExpandedSize ||
+                                          !WriterBufferingIterator::describedAlike(it->columns(), currentColumns))) {
             LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: collect " << currentOffset << " " << currentLength << endl;
             r.push_back(make_pair(currentOffset, currentLength));
             currentOffset = offset;
@@ -95,6 +100,7 @@ vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_
             currentLength += length;
             currentSize += size;
         }
+        currentColumns = it->columns();
     }
     if (currentLength > Length(0))
         r.push_back(make_pair(currentOffset, currentLength));
-- 
2.43.0


From 49337a415b9aff9d4f3010f41057411f00ba6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 38/75] fix: a failing close of an input does not end the
 process

---
 src/odc/Reader.cc                      | 14 +++++++++-----
 src/odc/ReaderIterator.cc              |  8 +++++++-
 src/odc/Select.cc                      |  9 ++++++++-
 src/odc/core/ThreadSharedDataHandle.cc |  9 ++++++++-
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/odc/Reader.cc b/src/odc/Reader.cc
index 8bc5c27..855f31e 100644
--- a/src/odc/Reader.cc
+++ b/src/odc/Reader.cc
@@ -11,6 +11,7 @@
 #include "odc/Reader.h"
 
 #include "eckit/io/DataHandle.h"
+#include "eckit/log/Log.h"
 
 
 using namespace std;
@@ -39,10 +40,7 @@ Reader& Reader::operator=(Reader&& rhs) {
 Reader::Reader(const eckit::PathName& path) : dataHandle_(path.fileHandle()), deleteDataHandle_(true), path_(path) {}
 
 Reader::~Reader() {
-    if (dataHandle_ && deleteDataHandle_) {
-        dataHandle_->close();
-        delete dataHandle_;
-    }
+    noMoreData();
 }
 
 ReaderIterator* Reader::createReadIterator(const PathName& pathName) {
@@ -65,7 +63,13 @@ const Reader::iterator Reader::end() const {
 
 void Reader::noMoreData() {
     if (dataHandle_ && deleteDataHandle_) {
-        dataHandle_->close();
+        // n.b. all that was wanted has been read
+        try {
+            dataHandle_->close();
+        }
+        catch (std::exception& e) {
+            eckit::Log::error() << "Closing failed: " << e.what() << std::endl;
+        }
         delete dataHandle_;
     }
     dataHandle_ = 0;
diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index 963c3cc..0d31bfd 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -144,7 +144,13 @@ ReaderIterator::~ReaderIterator() noexcept(false) {
     LOG_DEBUG_LIB(LibOdc) << "ReaderIterator::~ReaderIterator: headers read: " << headerCounter_ << " rows:" << nrows_
                           << std::endl;
 
-    close();
+    // n.b. all that was wanted has been read
+    try {
+        close();
+    }
+    catch (std::exception& e) {
+        eckit::Log::error() << "Closing failed: " << e.what() << std::endl;
+    }
     delete[] lastValues_;
     delete[] columnOffsets_;
 }
diff --git a/src/odc/Select.cc b/src/odc/Select.cc
index ca08bbd..58b066a 100644
--- a/src/odc/Select.cc
+++ b/src/odc/Select.cc
@@ -14,6 +14,7 @@
 
 #include "eckit/filesystem/PathName.h"
 #include "eckit/io/DataHandle.h"
+#include "eckit/log/Log.h"
 
 #include "odc/Select.h"
 #include "odc/SelectIterator.h"
@@ -61,7 +62,13 @@ Select::Select(const std::string& selectStatement, const char* path, bool manage
 
 Select::~Select() noexcept(false) {
     if (ownDH_) {
-        ownDH_->close();
+        // n.b. all that was wanted has been read
+        try {
+            ownDH_->close();
+        }
+        catch (std::exception& e) {
+            eckit::Log::error() << "Closing failed: " << e.what() << std::endl;
+        }
     }
 }
 
diff --git a/src/odc/core/ThreadSharedDataHandle.cc b/src/odc/core/ThreadSharedDataHandle.cc
index 318ae72..4a1116a 100644
--- a/src/odc/core/ThreadSharedDataHandle.cc
+++ b/src/odc/core/ThreadSharedDataHandle.cc
@@ -12,6 +12,7 @@
 #include "odc/core/ThreadSharedDataHandle.h"
 
 #include "eckit/exception/Exceptions.h"
+#include "eckit/log/Log.h"
 
 namespace odc {
 namespace core {
@@ -28,7 +29,13 @@ ThreadSharedDataHandle::Internal::Internal(eckit::DataHandle* dh, bool owned) :
 
 ThreadSharedDataHandle::Internal::~Internal() {
     if (owned_) {
-        dh_->close();
+        // n.b. all that was wanted has been read
+        try {
+            dh_->close();
+        }
+        catch (std::exception& e) {
+            eckit::Log::error() << "Closing failed: " << e.what() << std::endl;
+        }
         delete dh_;
     }
 }
-- 
2.43.0


From 8622f1e6ad4bff133224e8c08a477348d61121c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 39/75] fix: decoding with no threads is refused, not skipped

---
 src/odc/api/Odb.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 20ae3f8..eae66c5 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -359,6 +359,8 @@ size_t FrameImpl::columnCount() const {
 
 void FrameImpl::decode(DecoderImpl& target, size_t nthreads) {
 
+    ASSERT(nthreads >= 1);
+
     if (tables_.size() == 1) {
         tables_[0].decode(target);
     }
-- 
2.43.0


From 7983821993475c04f221fd0b2149648291b15c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 40/75] fix: a failed column lookup is not left behind half
 filled

---
 src/odc/core/Table.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 47f5c9b..22bbe0a 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -89,15 +89,22 @@ const std::map<std::string, size_t>& Table::columnLookup() {
         const MetaData& metadata(columns());
         size_t ncols = metadata.size();
 
+        // n.b. If this throws, an incomplete lookup must not be left behind
+        std::map<std::string, size_t> lookup;
+        std::map<std::string, size_t> simpleLookup;
+
         for (size_t i = 0; i < ncols; i++) {
             const auto& nm(metadata[i]->name());
-            if (!columnLookup_.emplace(nm, i).second) {
+            if (!lookup.emplace(nm, i).second) {
                 std::stringstream ss;
                 ss << "Duplicate column '" << nm << "' " << " found in table";
                 throw ODBDecodeError(ss.str(), Here());
             }
-            simpleColumnLookup_.emplace(nm.substr(0, nm.find('@')), i);
+            simpleLookup.emplace(nm.substr(0, nm.find('@')), i);
         }
+
+        std::swap(columnLookup_, lookup);
+        std::swap(simpleColumnLookup_, simpleLookup);
     }
 
     return columnLookup_;
-- 
2.43.0


From 942555487be31803c0fd2ae18b351d25fc4cd707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 41/75] fix: writers in several threads share the default
 codecs safely

---
 src/odc/codec/CodecOptimizer.cc | 45 ++++++++++++++++++++-------------
 src/odc/codec/CodecOptimizer.h  |  5 ++--
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.cc b/src/odc/codec/CodecOptimizer.cc
index 96eb9fa..5b0d534 100644
--- a/src/odc/codec/CodecOptimizer.cc
+++ b/src/odc/codec/CodecOptimizer.cc
@@ -24,25 +24,36 @@ namespace codec {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-std::map<api::ColumnType, std::string> CodecOptimizer::defaultCodec_;
+static std::map<api::ColumnType, std::string> readDefaultCodecs() {
+    std::map<api::ColumnType, std::string> codecs;
+
+    codecs[api::REAL]     = "short_real2";
+    codecs[api::DOUBLE]   = "long_real";
+    codecs[api::STRING]   = "chars";
+    codecs[api::INTEGER]  = "int32";
+    codecs[api::BITFIELD] = "int32";
+
+    typedef eckit::StringTools S;
+    std::vector<std::string> mappings(S::split(",", eckit::Resource<std::string>("$ODC_DEFAULT_CODEC", "")));
+
+    for (size_t i = 0; i < mappings.size(); ++i) {
+        std::vector<std::string> a(S::split(":", mappings[i]));
+        ASSERT("Wrong format of $ODC_DEFAULT_CODEC" && a.size() == 2);
+        codecs[core::Column::type(S::trim(a[0]))] = S::trim(a[1]);
+    }
+
+    return codecs;
+}
+
+// Shared by all the writers, which may be in different threads, so filled in by the first and never changed
+
+const std::map<api::ColumnType, std::string>& CodecOptimizer::defaultCodecs() {
+    static const std::map<api::ColumnType, std::string> codecs(readDefaultCodecs());
+    return codecs;
+}
 
 CodecOptimizer::CodecOptimizer() {
-    if (defaultCodec_.empty()) {
-        defaultCodec_[api::REAL]     = "short_real2";
-        defaultCodec_[api::DOUBLE]   = "long_real";
-        defaultCodec_[api::STRING]   = "chars";
-        defaultCodec_[api::INTEGER]  = "int32";
-        defaultCodec_[api::BITFIELD] = "int32";
-
-        typedef eckit::StringTools S;
-        std::vector<std::string> mappings(S::split(",", eckit::Resource<std::string>("$ODC_DEFAULT_CODEC", "")));
-
-        for (size_t i = 0; i < mappings.size(); ++i) {
-            std::vector<std::string> a(S::split(":", mappings[i]));
-            ASSERT("Wrong format of $ODC_DEFAULT_CODEC" && a.size() == 2);
-            defaultCodec_[core::Column::type(S::trim(a[0]))] = S::trim(a[1]);
-        }
-    }
+    defaultCodecs();
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 21db863..dfd0e16 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -35,7 +35,7 @@ public:
 
 private:
 
-    static std::map<api::ColumnType, std::string> defaultCodec_;
+    static const std::map<api::ColumnType, std::string>& defaultCodecs();
 };
 
 template <typename ByteOrder>
@@ -50,7 +50,8 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
         double missing  = col.rawMissingValue();
         // LOG << "CodecOptimizer::setOptimalCodecs: " << i << " " << col.name() << ", min=" << min << ", max=" << max
         // << std::endl;
-        std::string codec(defaultCodec_[col.type()]);
+        auto it = defaultCodecs().find(col.type());
+        std::string codec(it == defaultCodecs().end() ? std::string() : it->second);
         switch (col.type()) {
             case api::REAL: {
 
-- 
2.43.0


From 56dca39ba106dd000a816402d1e1253e658f9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 42/75] fix: the description of an error belongs to the thread
 that met it

---
 src/odc/api/odc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 872d226..0c79540 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -121,7 +121,8 @@ struct odc_encoder_t {
 
 /* Error handling */
 
-static std::string g_current_error_str;
+// The error of a call is described to the thread that made it
+static thread_local std::string g_current_error_str;
 static odc_failure_handler_t g_failure_handler = nullptr;
 static void* g_failure_handler_context         = nullptr;
 
-- 
2.43.0


From c1e13ebc7681c03dabf29dadf270cb2b593e3192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 43/75] fix: two threads may initialise the C interface

---
 src/odc/api/odc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 0c79540..3ea9bd8 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -13,6 +13,7 @@
 #include <cstring>
 #include <functional>
 #include <algorithm>
+#include <mutex>
 #include <numeric>
 
 #include "eckit/exception/Exceptions.h"
@@ -221,8 +222,11 @@ int odc_column_type_name(int type, const char** type_name) {
 
 int odc_initialise_api() {
     return wrapApiFunction([] {
+        static std::mutex mutex;
         static bool initialised = false;
 
+        std::lock_guard<std::mutex> lock(mutex);
+
         if (initialised) {
             Log::warning() << "Initialising ODC library twice" << std::endl;
         }
-- 
2.43.0


From 9be08fab234a59968b6f8d86b16fa89e0bf94270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 44/75] fix: SQL statements may be prepared in several threads

---
 src/odc/SelectIterator.cc        | 3 +++
 src/odc/sql/TODATable.cc         | 3 +++
 src/odc/sql/TODATableIterator.cc | 2 ++
 src/odc/sql/Types.cc             | 5 +++++
 src/odc/sql/Types.h              | 6 ++++++
 5 files changed, 19 insertions(+)

diff --git a/src/odc/SelectIterator.cc b/src/odc/SelectIterator.cc
index 8551784..679b40d 100644
--- a/src/odc/SelectIterator.cc
+++ b/src/odc/SelectIterator.cc
@@ -16,6 +16,7 @@
 #include "odc/SelectIterator.h"
 #include "odc/core/MetaData.h"
 #include "odc/sql/SQLSelectOutput.h"
+#include "odc/sql/Types.h"
 
 
 using namespace eckit;
@@ -35,6 +36,8 @@ SelectIterator::~SelectIterator() {}
 
 void SelectIterator::parse() {
 
+    std::lock_guard<std::recursive_mutex> lock(sql::typesMutex());
+
     eckit::sql::SQLParser p;
     p.parseString(session_, select_);
     eckit::sql::SQLStatement& stmt(session_.statement());
diff --git a/src/odc/sql/TODATable.cc b/src/odc/sql/TODATable.cc
index 0c9a10b..bb1c5cb 100644
--- a/src/odc/sql/TODATable.cc
+++ b/src/odc/sql/TODATable.cc
@@ -22,6 +22,7 @@
 #include "odc/csv/TextReaderIterator.h"
 #include "odc/sql/TODATable.h"
 #include "odc/sql/TODATableIterator.h"
+#include "odc/sql/Types.h"
 
 using namespace eckit;
 using namespace eckit::sql;
@@ -87,6 +88,8 @@ template <typename READER>
 void TODATable<READER>::populateMetaData() {
     auto& it(readerIterator_);
 
+    std::lock_guard<std::recursive_mutex> lock(typesMutex());
+
     size_t count = it->columns().size();
 
     for (size_t i = 0; i < count; i++) {
diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index b1d2dea..c8a252b 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -16,6 +16,7 @@
 #include "odc/csv/TextReaderIterator.h"
 #include "odc/sql/TODATable.h"
 #include "odc/sql/TODATableIterator.h"
+#include "odc/sql/Types.h"
 
 
 namespace odc {
@@ -97,6 +98,7 @@ bool TODATableIterator<READER>::next() {
     if (it_->isNewDataset()) {
         // TODO: Need to update the column pointers in the SQLSelect. AARGH.
         updateMetaData();
+        std::lock_guard<std::recursive_mutex> lock(typesMutex());
         metadataUpdateCallback_(*this);
     }
 
diff --git a/src/odc/sql/Types.cc b/src/odc/sql/Types.cc
index 90bd979..93219f2 100644
--- a/src/odc/sql/Types.cc
+++ b/src/odc/sql/Types.cc
@@ -23,6 +23,11 @@ namespace sql {
 
 //----------------------------------------------------------------------------------------------------------------------
 
+std::recursive_mutex& typesMutex() {
+    static std::recursive_mutex mutex;
+    return mutex;
+}
+
 ColumnType sqlToOdbType(const SQLType& t) {
 
     switch (t.getKind()) {
diff --git a/src/odc/sql/Types.h b/src/odc/sql/Types.h
index a08b276..8082cd9 100644
--- a/src/odc/sql/Types.h
+++ b/src/odc/sql/Types.h
@@ -14,6 +14,8 @@
 #ifndef odc_sql_Types_H
 #define odc_sql_Types_H
 
+#include <mutex>
+
 #include "odc/api/ColumnType.h"
 
 namespace eckit {
@@ -31,6 +33,10 @@ namespace sql {
 
 odc::api::ColumnType sqlToOdbType(const eckit::sql::type::SQLType& t);
 
+/// The SQL types are kept by eckit in one unprotected map, to which they are added when they are first needed. This
+/// is held wherever types may be looked up: when columns are described, and when a statement is prepared.
+std::recursive_mutex& typesMutex();
+
 //----------------------------------------------------------------------------------------------------------------------
 
 }  // namespace sql
-- 
2.43.0


From 824d2799711097635ef377b67d745b8c45fecd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 45/75] fix: closing the descriptor of a reader may fail
 without ending the process

---
 src/odc/api/odc.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 3ea9bd8..7edc06a 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -305,13 +305,32 @@ int odc_open_path(odc_reader_t** reader, const char* filename) {
 }
 
 int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
+
+    // n.b. A FileDescHandle that owns its descriptor tries to close it again (and throws from its destructor) if closing
+    // it has failed once.
+    struct OwnedFileDescHandle : public eckit::FileDescHandle {
+        explicit OwnedFileDescHandle(int fd) : FileDescHandle(fd, false), ownedFd_(fd) {}
+        ~OwnedFileDescHandle() override {
+            if (ownedFd_ != -1)
+                ::close(ownedFd_);
+        }
+        void close() override {
+            int fd   = ownedFd_;
+            ownedFd_ = -1;
+            if (fd != -1 && ::close(fd) != 0)
+                throw CloseError("File descriptor " + std::to_string(fd), Here());
+        }
+
+        int ownedFd_;
+    };
+
     return wrapApiFunction([reader, fd] {
         // Take a copy of the file descriptor. This allows us to decouple the life of this
         // from the life of the caller
         int fd2 = dup(fd);
         if (fd2 == -1)
             throw CantOpenFile("dup() failed on supplied file descriptor", Here());
-        (*reader) = new odc_reader_t(new FileDescHandle(fd2, true));
+        (*reader) = new odc_reader_t(new OwnedFileDescHandle(fd2));
     });
 }
 
-- 
2.43.0


From f2f7efdd59a88e8f846b8a83b2d4eaee1e193003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 46/75] fix: what the decoding threads use outlives them

---
 src/odc/api/Odb.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index eae66c5..1da1a3b 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -383,9 +383,11 @@ void FrameImpl::decode(DecoderImpl& target, size_t nthreads) {
 
         if (nthreads > 1) {
             std::mutex guard_mutex;
-            std::vector<std::future<void>> threads;
             size_t next_frame = 0;
 
+            // n.b. Declared last. If anything throws, the threads come to their end before what they use goes.
+            std::vector<std::future<void>> threads;
+
             for (size_t i = 0; i < nthreads; i++) {
                 threads.emplace_back(std::async(std::launch::async, [&] {
                     while (true) {
-- 
2.43.0


From 3a4a1a3554a35474567bb6c5db1ba59d25ec37a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 47/75] fix: an encoder refuses negative sizes and null
 properties

---
 src/odc/api/odc.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 7edc06a..9309e3b 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -894,6 +894,8 @@ int odc_free_encoder(const odc_encoder_t* encoder) {
 int odc_encoder_add_property(odc_encoder_t* encoder, const char* key, const char* value) {
     return wrapApiFunction([encoder, key, value] {
         ASSERT(encoder);
+        ASSERT(key);
+        ASSERT(value);
         encoder->properties[key] = value;
     });
 }
@@ -901,6 +903,7 @@ int odc_encoder_add_property(odc_encoder_t* encoder, const char* key, const char
 int odc_encoder_set_row_count(odc_encoder_t* encoder, long nrows) {
     return wrapApiFunction([encoder, nrows] {
         ASSERT(encoder);
+        ASSERT(nrows >= 0);
         encoder->nrows         = nrows;
         encoder->rowsFromArray = false;
     });
@@ -917,6 +920,9 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
                                int columnMajorWidth) {
     return wrapApiFunction([encoder, data, width, height, columnMajorWidth] {
         ASSERT(encoder);
+        ASSERT(width >= 0);
+        ASSERT(height >= 0);
+        ASSERT(columnMajorWidth >= 0);
 
         // If we are setting this _again_ then this is because a configured encoder
         // is being reused. Make sure that we rezero things that should be rezeroed.
@@ -983,6 +989,7 @@ int odc_encoder_column_add_bitfield(odc_encoder_t* encoder, int col, const char*
             offset = ci.bitfield.back().offset + ci.bitfield.back().size;
         }
 
+        ASSERT(nbits >= 0);
         ASSERT(offset + nbits <= 32);
         ci.bitfield.emplace_back(ColumnInfo::Bit{name, nbits, int(offset)});
     });
-- 
2.43.0


From e03d8cf502b6e0031f11809a40e74f0e0789b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 48/75] fix: text import refuses bitfields without a positive
 size

---
 src/odc/csv/TextReaderIterator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 2141c28..e85eaab 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -107,7 +107,7 @@ eckit::sql::BitfieldDef TextReaderIterator::parseBitfields(const std::string& c)
 
         int size = atoi(v[1].c_str());
 
-        if (!(v.size() > 0))
+        if (size <= 0)
             throw UserError("Size of a bitfield must be positive and larger than zero");
 
         numberOfBits += size;
-- 
2.43.0


From f447feadded23179935c3013711e23c55220e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 49/75] fix: text import does not take a blank line or a read
 error for the end of the data

---
 src/odc/csv/TextReaderIterator.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index e85eaab..2be13b0 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -16,6 +16,7 @@
 #include <algorithm>
 #include <fstream>
 
+#include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/PathName.h"
 #include "eckit/log/Log.h"
 #include "eckit/types/Types.h"
@@ -125,6 +126,8 @@ eckit::sql::BitfieldDef TextReaderIterator::parseBitfields(const std::string& c)
 void TextReaderIterator::parseHeader() {
     std::string header;
     std::getline(*in_, header);
+    if (in_->bad())
+        throw ReadError("Error reading text");
     std::vector<std::string> columns(S::split(delimiter_, header));
     // c->missingValue(missingValue);
 
@@ -191,16 +194,21 @@ bool TextReaderIterator::next() {
     if (noMore_)
         return false;
 
+    // Blank lines hold no data. They are not the end of it either.
     std::string line;
-    std::getline(*in_, line);
-    line = S::trim(line);
+    do {
+        if (!std::getline(*in_, line)) {
+            if (in_->bad())
+                throw ReadError("Error reading text");
+            noMore_ = true;
+            return false;
+        }
+        line = S::trim(line);
+    } while (line.empty());
+
     std::vector<std::string> values(S::split(delimiter_, line));
 
     size_t nCols = values.size();
-    if (nCols == 0) {
-        noMore_ = true;
-        return false;
-    }
     ASSERT(nCols == columns().size());
 
     for (size_t i = 0; i < nCols; ++i) {
-- 
2.43.0


From ff00ca8d8be373e74c3469b7abe8e2d9b5ffc08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 50/75] fix: text import refuses what is no integer, and empty
 values

---
 src/odc/csv/TextReaderIterator.cc | 40 +++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 2be13b0..ffb6668 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -14,6 +14,9 @@
 /// @author Piotr Kuchta, Oct 2010
 
 #include <algorithm>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <fstream>
 
 #include "eckit/exception/Exceptions.h"
@@ -34,6 +37,39 @@ typedef StringTools S;
 
 namespace odc {
 
+namespace {
+
+/// The whole of the text has to be an integer. Reals without a fraction are accepted.
+long parseInteger(const std::string& v) {
+    const char* begin = v.c_str();
+    char* end         = nullptr;
+    errno             = 0;
+    long value        = ::strtol(begin, &end, 10);
+    if (end == begin || *end != 0) {
+        double real = ::strtod(begin, &end);
+        if (end == begin || *end != 0 || std::abs(real) > 9007199254740992.0 || real != std::trunc(real))
+            throw UserError("Value '" + v + "' is not an integer");
+        value = static_cast<long>(real);
+    }
+    if (errno == ERANGE)
+        throw UserError("Value '" + v + "' is out of range");
+    return value;
+}
+
+/// Split a line into its values. Values cannot be empty, unless the delimiter is white space, which can be repeated.
+std::vector<std::string> splitLine(const std::string& delimiter, const std::string& line) {
+    if (delimiter.find_first_of(" \t") == std::string::npos) {
+        for (size_t i = 0; i < line.size(); ++i) {
+            if (delimiter.find(line[i]) != std::string::npos &&
+                (i == 0 || delimiter.find(line[i - 1]) != std::string::npos))
+                throw UserError("Empty value in line '" + line + "'");
+        }
+    }
+    return S::split(delimiter, line);
+}
+
+}  // namespace
+
 TextReaderIterator::TextReaderIterator(TextReader& owner) :
     columns_(0),
     lastValues_(0),
@@ -206,7 +242,7 @@ bool TextReaderIterator::next() {
         line = S::trim(line);
     } while (line.empty());
 
-    std::vector<std::string> values(S::split(delimiter_, line));
+    std::vector<std::string> values(splitLine(delimiter_, line));
 
     size_t nCols = values.size();
     ASSERT(nCols == columns().size());
@@ -261,7 +297,7 @@ bool TextReaderIterator::next() {
 
                 case api::INTEGER:
                 case api::BITFIELD:
-                    lastValues_[columnOffsets_[i]] = static_cast<double>(Translator<std::string, long>()(v));
+                    lastValues_[columnOffsets_[i]] = static_cast<double>(parseInteger(v));
                     break;
 
                 default:
-- 
2.43.0


From fbd51f1cda6120e4700c627761f9229831bc74fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 51/75] fix: text import reports a data handle that fails by a
 return value

---
 src/odc/api/Odb.cc | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 1da1a3b..8a7991d 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -17,7 +17,6 @@
 
 #include "eckit/filesystem/PathName.h"
 #include "eckit/io/BufferList.h"
-#include "eckit/io/HandleBuf.h"
 #include "eckit/io/MemoryHandle.h"
 #include "eckit/log/Log.h"
 #include "eckit/utils/StringTools.h"
@@ -641,10 +640,36 @@ const char* columnTypeName(const ColumnType& type) {
 
 //------------------------------------------------------------------------------------------------------------
 
+namespace {
+
+/// Read a data handle through a std::istream. Failures to read are not mistaken for the end of the data.
+class ReadHandleBuf : public std::streambuf {
+public:
+
+    explicit ReadHandleBuf(DataHandle& dh) : dh_(dh) {}
+
+private:
+
+    int_type underflow() override {
+        if (gptr() == egptr()) {
+            long n = dh_.read(buffer_, sizeof(buffer_));
+            if (n < 0)
+                throw ReadError(dh_.title());
+            setg(buffer_, buffer_, buffer_ + n);
+        }
+        return gptr() == egptr() ? traits_type::eof() : traits_type::to_int_type(*gptr());
+    }
+
+    DataHandle& dh_;
+    char buffer_[4096];
+};
+
+}  // namespace
+
 size_t odbFromCSV(DataHandle& dh_in, DataHandle& dh_out, const std::string& delimiter) {
 
     // Convert data handle to std::istream.
-    HandleBuf buf(dh_in);
+    ReadHandleBuf buf(dh_in);
     std::istream is(&buf);
     is.exceptions(std::ios_base::badbit);
 
-- 
2.43.0


From f58437adf3943b2fabfaf8f810297dd471a1dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 52/75] fix: a text reader that cannot be constructed closes
 its file

---
 src/odc/csv/TextReader.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/odc/csv/TextReader.cc b/src/odc/csv/TextReader.cc
index fd7069a..055d861 100644
--- a/src/odc/csv/TextReader.cc
+++ b/src/odc/csv/TextReader.cc
@@ -12,6 +12,7 @@
 #include "odc/csv/TextReader.h"
 
 #include <fstream>
+#include <memory>
 
 #include "odc/csv/TextReaderIterator.h"
 
@@ -26,10 +27,12 @@ TextReader::TextReader(std::istream& input, const std::string& delimiter) :
 
 
 TextReader::TextReader(const std::string& path, const std::string& delimiter) :
-    in_(new std::ifstream(path.c_str())),
-    deleteDataHandle_(true),
-    delimiter_(delimiter),
-    iteratorSingleton_(new TextReaderIterator(*this)) {}
+    in_(nullptr), deleteDataHandle_(true), delimiter_(delimiter), iteratorSingleton_(nullptr) {
+    std::unique_ptr<std::istream> in(new std::ifstream(path.c_str()));
+    in_                = in.get();
+    iteratorSingleton_ = new TextReaderIterator(*this);
+    in.release();
+}
 
 TextReader::TextReader(TextReader&& rhs) :
     in_(rhs.in_),
-- 
2.43.0


From 36fec286fb1cb65a9d10bcc65fbf592d6291b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 53/75] fix: the type of a selected column follows the frame
 being read

---
 src/odc/sql/SQLSelectOutput.cc | 21 ++++++++++++++++++++-
 src/odc/sql/TODATable.cc       | 14 ++++++++++++++
 src/odc/sql/TODATable.h        |  4 ++++
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/odc/sql/SQLSelectOutput.cc b/src/odc/sql/SQLSelectOutput.cc
index 5fa9600..5ab0fd3 100644
--- a/src/odc/sql/SQLSelectOutput.cc
+++ b/src/odc/sql/SQLSelectOutput.cc
@@ -16,9 +16,13 @@
 #include "eckit/log/Number.h"
 
 #include "eckit/sql/SQLSelect.h"
+#include "eckit/sql/expression/BitColumnExpression.h"
+#include "eckit/sql/expression/ColumnExpression.h"
 #include "eckit/sql/expression/SQLExpression.h"
 
+#include "odc/Reader.h"
 #include "odc/sql/SQLSelectOutput.h"
+#include "odc/sql/TODATable.h"
 #include "odc/sql/Types.h"
 
 
@@ -30,6 +34,21 @@ namespace sql {
 
 //----------------------------------------------------------------------------------------------------------------------
 
+namespace {
+
+/// The type of a column can change between frames, but the SQL type is always the one in the first frame.
+api::ColumnType outputType(expression::SQLExpression& e) {
+    api::ColumnType type = sqlToOdbType(*e.type());
+    if (auto column = dynamic_cast<expression::ColumnExpression*>(&e)) {
+        auto table = dynamic_cast<const TODATable<Reader>*>(column->table());
+        if (table && !dynamic_cast<expression::BitColumnExpression*>(&e))
+            table->currentType(column->current(), type);
+    }
+    return type;
+}
+
+}  // namespace
+
 // TODO: n.b. We can implement an optimised case if the output buffer matches the buffer in the
 //            innards of the select, which just does a memcpy. It will be a bit messy, but this
 //            is probably the place to do it (although it may rather belong in eckit).
@@ -178,7 +197,7 @@ void SQLSelectOutput::updateTypes(SQLSelect& sql) {
         // Update the metadata
 
         metaData_[i]->name(column->title());
-        metaData_[i]->type<core::SameByteOrder>(sqlToOdbType(*column->type()));
+        metaData_[i]->type<core::SameByteOrder>(outputType(*column));
         metaData_[i]->hasMissing(column->hasMissingValue());
         metaData_[i]->bitfieldDef(column->bitfieldDef());
         metaData_[i]->dataSizeDoubles(columnSizesDoubles_.back());
diff --git a/src/odc/sql/TODATable.cc b/src/odc/sql/TODATable.cc
index bb1c5cb..6e7f256 100644
--- a/src/odc/sql/TODATable.cc
+++ b/src/odc/sql/TODATable.cc
@@ -84,6 +84,20 @@ const READER& TODATable<READER>::oda() const {
 }
 
 
+template <typename READER>
+bool TODATable<READER>::currentType(const double* value, api::ColumnType& type) const {
+    auto& it(const_cast<typename READER::iterator&>(readerIterator_));
+    const core::MetaData& md(it->columns());
+    for (size_t i = 0; i < md.size(); ++i) {
+        if (value == it->data() + it->dataOffset(i)) {
+            type = md[i]->type();
+            return true;
+        }
+    }
+    return false;
+}
+
+
 template <typename READER>
 void TODATable<READER>::populateMetaData() {
     auto& it(readerIterator_);
diff --git a/src/odc/sql/TODATable.h b/src/odc/sql/TODATable.h
index 7e58591..31540d5 100644
--- a/src/odc/sql/TODATable.h
+++ b/src/odc/sql/TODATable.h
@@ -36,6 +36,10 @@ public:
 
     const READER& oda() const;
 
+    /// The columns of the frame being read. The types of the columns of the SQL table are the ones of the first frame.
+    /// @returns false if value is not part of the row being read
+    bool currentType(const double* value, api::ColumnType& type) const;
+
 private:  // methods
 
     void populateMetaData();
-- 
2.43.0


From 4df8fe8022bea199ac49d82792c3d16c9d01be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 54/75] fix: a reader iterator that cannot be constructed
 closes its input

---
 src/odc/ReaderIterator.cc | 60 ++++++++++++++++-----------------------
 src/odc/ReaderIterator.h  | 13 ++++++---
 2 files changed, 34 insertions(+), 39 deletions(-)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index 0d31bfd..b203614 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -23,43 +23,24 @@ using namespace odc::core;
 
 namespace odc {
 
-ReaderIterator::ReaderIterator(Reader& owner) :
-    owner_(owner),
-    columns_(0),
-    lastValues_(0),
-    columnOffsets_(0),
-    rowDataSizeDoubles_(0),
-    nrows_(0),
-    rowsRemainingInTable_(0),
-    f_(owner_.dataHandle()->clone()),
-    newDataset_(false),
-    rowDataBuffer_(0),
-    noMore_(false),
-    length_(0),
-    bytesRead_(0),
-    headerCounter_(0),
-    byteOrder_(BYTE_ORDER_INDICATOR),
-    refCount_(0) {
-    ASSERT(f_);
-    length_ = f_->openForRead();
+// n.b. Delegating to a constructor that cannot fail ensures that the destructor tidies up if open() fails
 
-    loadHeaderAndBufferData();
+ReaderIterator::ReaderIterator(Reader& owner) : ReaderIterator(owner, owner.dataHandle()->clone()) {
+    open();
 }
 
-eckit::DataHandle* ReaderIterator::dataHandle() {
-    ASSERT(f_);
-    return f_.get();
+ReaderIterator::ReaderIterator(Reader& owner, const PathName& pathName) :
+    ReaderIterator(owner, pathName.fileHandle()) {
+    open();
 }
 
-ReaderIterator::ReaderIterator(Reader& owner, const PathName& pathName) :
+ReaderIterator::ReaderIterator(Reader& owner, eckit::DataHandle* dh) :
     owner_(owner),
     columns_(0),
-    lastValues_(0),
-    columnOffsets_(0),
     rowDataSizeDoubles_(0),
     nrows_(0),
     rowsRemainingInTable_(0),
-    f_(pathName.fileHandle()),
+    f_(dh),
     newDataset_(false),
     rowDataBuffer_(0),
     noMore_(false),
@@ -67,13 +48,26 @@ ReaderIterator::ReaderIterator(Reader& owner, const PathName& pathName) :
     bytesRead_(0),
     headerCounter_(0),
     byteOrder_(BYTE_ORDER_INDICATOR),
-    refCount_(0) {
+    refCount_(0) {}
+
+void ReaderIterator::open() {
     ASSERT(f_);
-    length_ = f_->openForRead();
+    try {
+        length_ = f_->openForRead();
+    }
+    catch (...) {
+        f_.reset();
+        throw;
+    }
 
     loadHeaderAndBufferData();
 }
 
+eckit::DataHandle* ReaderIterator::dataHandle() {
+    ASSERT(f_);
+    return f_.get();
+}
+
 bool ReaderIterator::loadHeaderAndBufferData() {
 
     if (noMore_)
@@ -151,8 +145,6 @@ ReaderIterator::~ReaderIterator() noexcept(false) {
     catch (std::exception& e) {
         eckit::Log::error() << "Closing failed: " << e.what() << std::endl;
     }
-    delete[] lastValues_;
-    delete[] columnOffsets_;
 }
 
 
@@ -165,14 +157,12 @@ void ReaderIterator::initRowBuffer() {
     int32_t numDoubles = rowDataSizeDoubles();
     size_t nCols       = columns().size();
 
-    delete[] lastValues_;
-    lastValues_ = new double[numDoubles]();
+    lastValues_.reset(new double[numDoubles]());
 
     codecs_.clear();
     codecs_.resize(nCols, 0);
 
-    delete[] columnOffsets_;
-    columnOffsets_ = new size_t[nCols];
+    columnOffsets_.reset(new size_t[nCols]);
 
     size_t offset = 0;
     for (size_t i = 0; i < nCols; i++) {
diff --git a/src/odc/ReaderIterator.h b/src/odc/ReaderIterator.h
index 57c6840..a19f1f2 100644
--- a/src/odc/ReaderIterator.h
+++ b/src/odc/ReaderIterator.h
@@ -16,6 +16,8 @@
 #ifndef ReaderIterator_H
 #define ReaderIterator_H
 
+#include <memory>
+
 #include "odc/IteratorProxy.h"
 
 #include "odc/core/MetaData.h"
@@ -57,8 +59,8 @@ public:
     ~ReaderIterator() noexcept(false);
 
     bool isNewDataset();
-    const double* data() const { return lastValues_; }
-    double* data() { return lastValues_; }
+    const double* data() const { return lastValues_.get(); }
+    double* data() { return lastValues_.get(); }
     double& data(size_t);
 
     bool operator!=(const ReaderIterator& other);
@@ -113,13 +115,16 @@ private:
     ReaderIterator(const ReaderIterator&);
     ReaderIterator& operator=(const ReaderIterator&);
 
+    ReaderIterator(Reader& owner, eckit::DataHandle* dh);
+
+    void open();
     void initRowBuffer();
     bool loadHeaderAndBufferData();
 
     Reader& owner_;
     core::MetaData columns_;
-    double* lastValues_;
-    size_t* columnOffsets_;  // in doubles
+    std::unique_ptr<double[]> lastValues_;
+    std::unique_ptr<size_t[]> columnOffsets_;  // in doubles
     size_t rowDataSizeDoubles_;
     std::vector<core::Codec*> codecs_;
     unsigned long long nrows_;
-- 
2.43.0


From ed6d9dd9f00a17fb4b202644de5b63e1df43ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 55/75] fix: SQL refuses a column that changes between string
 and number

---
 src/odc/sql/TODATableIterator.cc | 12 ++++++++++++
 src/odc/sql/TODATableIterator.h  |  1 +
 2 files changed, 13 insertions(+)

diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index c8a252b..f02d20f 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -115,9 +115,21 @@ void TODATableIterator<READER>::updateMetaData() {
     columnDoublesSizes_.clear();
     columnsHaveMissing_.clear();
     columnMissingValues_.clear();
+    const bool first = columnsAreStrings_.empty();
     for (const eckit::sql::SQLColumn& col : columns_) {
         const size_t idx = columnIndex(col.name(), md);
 
+        // n.b. The expressions were built for the first frame, and can cope with all changes but this one
+        const bool isString = md[idx]->type() == api::STRING;
+        if (first) {
+            columnsAreStrings_.push_back(isString);
+        }
+        else if (bool(columnsAreStrings_[columnOffsets_.size()]) != isString) {
+            throw eckit::UserError(
+                "Column \"" + col.name() + "\" changes between string and number, but is required in SQL request.",
+                Here());
+        }
+
         columnOffsets_.push_back(it_->dataOffset(idx));
         columnDoublesSizes_.push_back(it_->dataSizeDoubles(idx));
         columnsHaveMissing_.push_back(it_->hasMissing(idx));
diff --git a/src/odc/sql/TODATableIterator.h b/src/odc/sql/TODATableIterator.h
index 91ae541..6e90b62 100644
--- a/src/odc/sql/TODATableIterator.h
+++ b/src/odc/sql/TODATableIterator.h
@@ -66,6 +66,7 @@ private:  // members
     std::vector<size_t> columnDoublesSizes_;
     std::vector<char> columnsHaveMissing_;
     std::vector<double> columnMissingValues_;
+    std::vector<char> columnsAreStrings_;
 
     std::function<void(eckit::sql::SQLTableIterator&)> metadataUpdateCallback_;
 
-- 
2.43.0


From 0272962105129600604ef5c31388209741fb1a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 56/75] fix: filtering and text import do not depend on how
 integers are to be read

---
 src/odc/api/Odb.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 8a7991d..ad575c1 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -642,6 +642,19 @@ const char* columnTypeName(const ColumnType& type) {
 
 namespace {
 
+/// SQL and text import work with doubles only, whatever the settings of the thread
+
+class IntegersAsDoubles {
+    bool previous_;
+
+public:
+
+    IntegersAsDoubles() : previous_(ODBAPISettings::instance().integersAsDoubles()) {
+        ODBAPISettings::instance().treatIntegersAsDoubles(true);
+    }
+    ~IntegersAsDoubles() { ODBAPISettings::instance().treatIntegersAsDoubles(previous_); }
+};
+
 /// Read a data handle through a std::istream. Failures to read are not mistaken for the end of the data.
 class ReadHandleBuf : public std::streambuf {
 public:
@@ -678,6 +691,7 @@ size_t odbFromCSV(DataHandle& dh_in, DataHandle& dh_out, const std::string& deli
 
 size_t odbFromCSV(std::istream& in, DataHandle& dh_out, const std::string& delimiter) {
 
+    IntegersAsDoubles asDoubles;
     odc::TextReader reader(in, delimiter);
     odc::Writer<> writer(dh_out);
     odc::Writer<>::iterator output(writer.begin());
@@ -728,6 +742,7 @@ size_t filter(const std::string& sql, eckit::DataHandle& in, eckit::DataHandle&
         in.saveInto(out);
     }
     else {
+        IntegersAsDoubles asDoubles;
         odc::Select odb(sql, in);
         odc::Select::iterator it  = odb.begin();
         odc::Select::iterator end = odb.end();
-- 
2.43.0


From 6b3a555d06f87e8470b90c91df6537d613db19f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 57/75] fix: filtering a frame keeps rows beyond the first
 written frame

---
 src/odc/api/Odb.cc | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index ad575c1..ec39aa6 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -311,7 +311,20 @@ const std::vector<ColumnInfo>& FrameImpl::columnInfo() const {
 
         columnInfo_.reserve(columnCount());
 
-        for (const core::Column* col : tables_.begin()->columns()) {
+        for (size_t index = 0; index < columnCount(); ++index) {
+
+            const core::Column* col = tables_.front().columns()[index];
+
+            // n.b. Strings may be narrower in some tables than in others
+
+            size_t sizeDoubles = col->dataSizeDoubles();
+            for (const core::Table& t : tables_) {
+                const core::MetaData& md(t.columns());
+                const core::Column* c = md[index];
+                if (c->name() != col->name())
+                    c = md[md.columnIndex(col->name())];
+                sizeDoubles = std::max(sizeDoubles, c->dataSizeDoubles());
+            }
 
             // Extract any bitfield details
 
@@ -334,7 +347,7 @@ const std::vector<ColumnInfo>& FrameImpl::columnInfo() const {
             // Construct column details
 
             columnInfo_.emplace_back(
-                ColumnInfo{col->name(), col->type(), col->dataSizeDoubles() * sizeof(double), std::move(bitfield)});
+                ColumnInfo{col->name(), col->type(), sizeDoubles * sizeof(double), std::move(bitfield)});
         }
     }
 
@@ -483,13 +496,17 @@ Frame FrameImpl::filter(const std::string& sql) {
     ::odc::api::filter(sql, input_dh, *output_dh);
 
     // Open this output data handle as a 'new' odb, and extract the Frame
-    // There should only be one frame, as it should have a consistent structure from
-    // the SQL select
+    // It has a consistent structure from the SQL select. But if it has many rows there are many tables, and the
+    // widths of their string columns depend on what is in them.
 
-    Reader reader(output_dh.release());
-    Frame filtered_frame = reader.next();
-    ASSERT(!reader.next());
-    return filtered_frame;
+    core::TablesReader reader(output_dh.release());
+    std::vector<core::Table> tables;
+    for (auto it = reader.begin(), end = reader.end(); it != end; ++it) {
+        tables.emplace_back(*it);
+    }
+    if (tables.empty())
+        return Frame();
+    return Frame(std::unique_ptr<FrameImpl>(new FrameImpl(std::move(tables))));
 }
 
 Span FrameImpl::span(const std::vector<std::string>& columns, bool onlyConstantValues) {
-- 
2.43.0


From f2575ac36249f6095bf5863b103810223f9c50d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 58/75] fix: the missing value of a column past the last is
 refused

---
 src/odc/odccapi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index 48a5054..97cb406 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -458,7 +458,7 @@ int odb_write_iterator_get_column_offset(oda_write_iterator_ptr wi, int n, int*
 
 int odb_read_iterator_get_missing_value(oda_read_iterator_ptr ri, int index, double* value) {
     ReaderIterator* r(reinterpret_cast<ReaderIterator*>(ri));
-    if (index < 0 || long(r->columns().size()) < index) {
+    if (index < 0 || long(r->columns().size()) <= index) {
         std::stringstream ss;
         ss << "odb_read_iterator_get_missing_value: index " << index << " out of range, should be between 0 and "
            << r->columns().size();
@@ -515,7 +515,7 @@ int odb_select_iterator_get_bitfield(oda_select_iterator_ptr it, int index, char
 
 int odb_select_iterator_get_missing_value(oda_select_iterator_ptr ri, int index, double* value) {
     SelectIterator* r(reinterpret_cast<SelectIterator*>(ri));
-    if (index < 0 || long(r->columns().size()) < index) {
+    if (index < 0 || long(r->columns().size()) <= index) {
         std::stringstream ss;
         ss << "odb_select_iterator_get_missing_value: index " << index << " out of range, should be between 0 and "
            << r->columns().size();
-- 
2.43.0


From a931a05e54ac77a5a5e40bbad03b91c8a2f737e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:31 +0000
Subject: [PATCH 59/75] fix: merge refuses to run without the name of an output
 file

---
 src/odc/tools/MergeTool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index f63a168..55ba849 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -47,7 +47,7 @@ MergeTool::MergeTool(int ac, char* av[]) : Tool(ac, av), inputFiles_(), sql_(),
     sqlFiltering_ = optionIsSet("-S");
     std::string o(optionArgument("-o", std::string("<no-default>")));
     if (o == "<no-default>")
-        UserError("Output file is obligatory (option -o)");
+        throw UserError("Output file is obligatory (option -o)");
     outputFile_ = o;
 
     for (size_t i = 1; i < parameters().size(); ++i) {
-- 
2.43.0


From 5c561414060410ddcd81f3a9da586c8b4ac90baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 60/75] fix: setting columns copes with strings of more than 8
 characters

---
 src/odc/ODAUpdatingIterator.cc | 30 ++++++++++++++++++++++++------
 src/odc/ODAUpdatingIterator.h  |  3 +++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/odc/ODAUpdatingIterator.cc b/src/odc/ODAUpdatingIterator.cc
index 4b39e38..2951997 100644
--- a/src/odc/ODAUpdatingIterator.cc
+++ b/src/odc/ODAUpdatingIterator.cc
@@ -13,6 +13,8 @@
 ///
 /// @author Piotr Kuchta, June 2009
 
+#include <algorithm>
+
 #include "odc/core/MetaData.h"
 
 namespace odc {
@@ -24,6 +26,7 @@ ODAUpdatingIterator<T>::ODAUpdatingIterator(T& ii, const T& end, const std::vect
     end_(end),
     columns_(columns),
     columnIndices_(columns.size()),
+    rowSizeDoubles_(0),
     values_(values),
     data_(0),
     refCount_(0),
@@ -31,7 +34,7 @@ ODAUpdatingIterator<T>::ODAUpdatingIterator(T& ii, const T& end, const std::vect
     ASSERT(columns.size() == values.size());
 
     updateIndices();
-    std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
+    std::copy(ii_->data(), ii_->data() + rowSizeDoubles_, data_);
     update();
 }
 
@@ -39,8 +42,20 @@ template <typename T>
 void ODAUpdatingIterator<T>::updateIndices() {
     const core::MetaData& md(ii_->columns());
 
+    // n.b. Columns of strings may take more than one double each
+
+    columnOffsets_.clear();
+    columnSizesDoubles_.clear();
+    rowSizeDoubles_ = 0;
+    for (size_t i = 0; i < md.size(); ++i) {
+        columnOffsets_.push_back(rowSizeDoubles_);
+        columnSizesDoubles_.push_back(md[i]->dataSizeDoubles());
+        rowSizeDoubles_ += columnSizesDoubles_.back();
+    }
+
     delete[] data_;
-    data_ = new double[md.size()];
+    data_ = 0;
+    data_ = new double[rowSizeDoubles_];
 
     for (size_t i = 0; i < columns_.size(); ++i)
         columnIndices_[i] = md.columnIndex(columns_[i]);
@@ -48,7 +63,7 @@ void ODAUpdatingIterator<T>::updateIndices() {
 
 template <typename T>
 ODAUpdatingIterator<T>::ODAUpdatingIterator(const T& end) :
-    ii_(end), end_(end), columnIndices_(), values_(), data_(0), refCount_(0), noMore_(true) {}
+    ii_(end), end_(end), columnIndices_(), rowSizeDoubles_(0), values_(), data_(0), refCount_(0), noMore_(true) {}
 
 template <typename T>
 ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
@@ -57,8 +72,11 @@ ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
 
 template <typename T>
 void ODAUpdatingIterator<T>::update() {
-    for (size_t i = 0; i < columnIndices_.size(); ++i)
-        data_[columnIndices_[i]] = values_[i];
+    for (size_t i = 0; i < columnIndices_.size(); ++i) {
+        double* p = data_ + columnOffsets_[columnIndices_[i]];
+        std::fill(p, p + columnSizesDoubles_[columnIndices_[i]], 0);
+        *p = values_[i];
+    }
 }
 
 template <typename T>
@@ -76,7 +94,7 @@ bool ODAUpdatingIterator<T>::next() {
         if (ii_->isNewDataset())
             updateIndices();
 
-        std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
+        std::copy(ii_->data(), ii_->data() + rowSizeDoubles_, data_);
         update();
     }
     noMore_ = !r;
diff --git a/src/odc/ODAUpdatingIterator.h b/src/odc/ODAUpdatingIterator.h
index 901d57c..6c5e3a1 100644
--- a/src/odc/ODAUpdatingIterator.h
+++ b/src/odc/ODAUpdatingIterator.h
@@ -65,6 +65,9 @@ private:
 
     std::vector<std::string> columns_;
     std::vector<size_t> columnIndices_;
+    std::vector<size_t> columnOffsets_;
+    std::vector<size_t> columnSizesDoubles_;
+    size_t rowSizeDoubles_;
     const std::vector<double> values_;
 
     double* data_;
-- 
2.43.0


From 28c86abd9b17919bea44e9ebf0fc3cb5bbcf3aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 61/75] fix: merge keeps long strings and follows the columns
 of its inputs

---
 src/odc/tools/MergeTool.cc | 76 ++++++++++++++++++++++++++++++++++----
 1 file changed, 68 insertions(+), 8 deletions(-)

diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index 55ba849..20ee73d 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -9,6 +9,10 @@
  */
 
 #include "odc/tools/MergeTool.h"
+
+#include <algorithm>
+#include <map>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/FileHandle.h"
 #include "eckit/log/Timer.h"
@@ -73,11 +77,59 @@ void MergeTool::run() {
         merge(inputFiles_, sql_, outputFile_);
 }
 
+namespace {
+
+/// Make room in the output for the longest strings of an input. Columns of different names or types have no place in it.
+template <typename I, typename O>
+void followColumns(const I& in, size_t firstColumn, size_t nColumns, O& out) {
+
+    if (in->columns().size() != nColumns)
+        throw UserError("The number of columns changes within an input file of merge.");
+
+    std::map<std::string, size_t> wider;
+    for (size_t cn = 0; cn < nColumns; ++cn) {
+        const Column& from(*in->columns()[cn]);
+        const Column& to(*out->columns()[firstColumn + cn]);
+        if (from.name() != to.name() || from.type() != to.type())
+            throw UserError("Column '" + to.name() + "' changes within an input file of merge.");
+        if (from.dataSizeDoubles() > to.dataSizeDoubles())
+            wider[to.name()] = from.dataSizeDoubles();
+    }
+
+    if (!wider.empty())
+        out->flushAndResetColumnSizes(wider);
+}
+
+/// Copy one row of an input to its columns of the output
+template <typename I, typename O>
+void copyRow(const I& in, size_t firstColumn, size_t nColumns, O& out) {
+
+    const double* p = in->data();
+    for (size_t cn = 0; cn < nColumns; ++cn) {
+        const Column& from(*in->columns()[cn]);
+        const Column& to(*out->columns()[firstColumn + cn]);
+        double* value = &out->data(firstColumn + cn);
+
+        // n.b. What stands for a missing value may differ between the frames of the input
+        if (from.type() != api::STRING && from.hasMissing() && *p == from.missingValue()) {
+            *value = to.missingValue();
+        }
+        else {
+            std::copy(p, p + from.dataSizeDoubles(), value);
+            std::fill(value + from.dataSizeDoubles(), value + to.dataSizeDoubles(), 0);
+        }
+        p += from.dataSizeDoubles();
+    }
+}
+
+}  // namespace
+
 template <typename T, typename I>
 void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile) {
     odc::Writer<> writer(outputFile);
     odc::Writer<>::iterator out(writer.begin());
 
+    std::vector<size_t> nColumns;
     for (size_t i = 0; i < iterators.size(); ++i) {
         MetaData columns(iterators[i].first->columns());
 
@@ -85,6 +137,7 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
             if (out->columns().hasColumn(columns[i]->name()))
                 throw eckit::UserError(std::string("Column '") + columns[i]->name() +
                                        "' occurs in more than one input file of merge.");
+        nColumns.push_back(columns.size());
         MetaData md(out->columns());
         md += columns;
         out->columns(md);
@@ -95,19 +148,26 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
     Log::info() << "MergeTool::merge: output metadata: " << out->columns() << std::endl;
 
     for (;;) {
-        for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
-            I& in(iterators[ii].first);
-            I& inEnd(iterators[ii].second);
-            if (!(in != inEnd)) {
+        for (size_t ii = 0; ii < iterators.size(); ++ii) {
+            if (!(iterators[ii].first != iterators[ii].second)) {
                 Log::info() << "Input file number " << ii << " ended." << std::endl;
                 out->close();
                 return;
             }
+        }
 
-            for (size_t cn = 0; cn < in->columns().size(); ++cn) {
-                ASSERT(i < out->columns().size());
-                out->data(i++) = (*in)[cn];
-            }
+        // n.b. this may write out what there is so far, so it has to come before any value of the row is set
+        for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
+            I& in(iterators[ii].first);
+            if (in->isNewDataset())
+                followColumns(in, i, nColumns[ii], out);
+            i += nColumns[ii];
+        }
+
+        for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
+            I& in(iterators[ii].first);
+            copyRow(in, i, nColumns[ii], out);
+            i += nColumns[ii];
             ++in;
         }
 
-- 
2.43.0


From aa384ab77b93f50eebe373dc7a0ee5409e00d772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 62/75] fix: mdset writes frames without rows and reports
 writes that fail

---
 src/odc/tools/MDSetTool.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index 1189092..2822397 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -30,6 +30,15 @@ using namespace odc::core;
 namespace odc {
 namespace tool {
 
+namespace {
+
+void write(DataHandle& out, const void* data, size_t size) {
+    if (out.write(data, size) != long(size))
+        throw WriteError("Could not write all of the output of mdset", Here());
+}
+
+}  // namespace
+
 void MDSetTool::help(std::ostream& o) {
     o << "Creates a new file resetting types or values (constants only) of columns.";
 }
@@ -104,17 +113,21 @@ void MDSetTool::run() {
 
             auto encodedHeader =
                 core::Header::serializeHeader(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            outHandle->write(encodedHeader.first, encodedHeader.second);
+            write(*outHandle, encodedHeader.first, encodedHeader.second);
         }
         else {
             Log::info() << "MDSetTool::run: OTHER ORDER " << sizeOfEncodedData << std::endl;
 
             auto encodedHeader =
                 core::Header::serializeHeaderOtherByteOrder(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            outHandle->write(encodedHeader.first, encodedHeader.second);
+            write(*outHandle, encodedHeader.first, encodedHeader.second);
         }
-        outHandle->write(encodedData.data(), sizeOfEncodedData);
+        // n.b. A frame without rows has no data
+        if (sizeOfEncodedData != 0)
+            write(*outHandle, encodedData.data(), sizeOfEncodedData);
     }
+
+    outHandle->close();
 }
 
 //
-- 
2.43.0


From 4fabf2c1d6562a3b928d10db61d4afa7d2fa8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:50 +0000
Subject: [PATCH 63/75] fix: ls, sql and xyv report an output file that could
 not be written

---
 src/odc/tools/LSTool.cc  | 6 ++++++
 src/odc/tools/SQLTool.cc | 9 ++++++++-
 src/odc/tools/XYVTool.cc | 2 ++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/odc/tools/LSTool.cc b/src/odc/tools/LSTool.cc
index 5da0829..86639bd 100644
--- a/src/odc/tools/LSTool.cc
+++ b/src/odc/tools/LSTool.cc
@@ -104,6 +104,12 @@ void LSTool::run() {
 
     unsigned long long n = 0;
     n                    = printData(db, *out);
+
+    if (foutPtr) {
+        foutPtr->close();
+        if (!*foutPtr)
+            throw WriteError(optionArgument("-o", std::string("")), Here());
+    }
     Log::info() << "Selected " << n << " row(s)." << std::endl;
 }
 
diff --git a/src/odc/tools/SQLTool.cc b/src/odc/tools/SQLTool.cc
index 70ea5b6..f49af30 100644
--- a/src/odc/tools/SQLTool.cc
+++ b/src/odc/tools/SQLTool.cc
@@ -105,7 +105,8 @@ void SQLTool::run() {
 
 
     std::unique_ptr<std::ofstream> outStream;
-    if (optionIsSet("-o") && sqlOutputConfig_->outputFormat() != "odb") {
+    if (optionIsSet("-o") && sqlOutputConfig_->outputFormat() != "odb" &&
+        sqlOutputConfig_->outputFormat() != eckit::sql::SQLOutputConfig::defaultOutputFormat) {  // i.e. odb with -o
         outStream.reset(new std::ofstream(optionArgument("-o", std::string("")).c_str()));
         sqlOutputConfig_->setOutputStream(*outStream);
     }
@@ -142,6 +143,12 @@ void SQLTool::run() {
     eckit::sql::SQLParser parser;
     parser.parseString(session, sql);
     session.statement().execute();
+
+    if (outStream) {
+        outStream->close();
+        if (!*outStream)
+            throw WriteError(optionArgument("-o", std::string("")), Here());
+    }
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/odc/tools/XYVTool.cc b/src/odc/tools/XYVTool.cc
index f32966e..60c43ee 100644
--- a/src/odc/tools/XYVTool.cc
+++ b/src/odc/tools/XYVTool.cc
@@ -58,6 +58,8 @@ void XYVTool::run() {
         out << (*it)[0] << "\t" << (*it)[1] << "\t" << (*it)[2] << std::endl;
     }
     out.close();
+    if (!out)
+        throw WriteError(outputFile.asString(), Here());
 }
 
 }  // namespace tool
-- 
2.43.0


From 70d6b7820139670913b8d323fdc2107a9a550857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 64/75] fix: tools report output that could not be printed

---
 src/odc/tools/ToolRunnerApplication.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/odc/tools/ToolRunnerApplication.cc b/src/odc/tools/ToolRunnerApplication.cc
index bbd0024..0313454 100644
--- a/src/odc/tools/ToolRunnerApplication.cc
+++ b/src/odc/tools/ToolRunnerApplication.cc
@@ -12,6 +12,8 @@
 ///
 /// @author Piotr Kuchta, ECMWF, Feb 2009
 
+#include <iostream>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/PathName.h"
 
@@ -50,6 +52,9 @@ void ToolRunnerApplication::run() {
 
     tool_->run();
 
+    if (!std::cout.flush())
+        throw eckit::WriteError("standard output", Here());
+
     if (deleteTool_) {
         delete tool_;
         tool_ = 0;
-- 
2.43.0


From 6ab67200b229e48869662abeaa0075fde6b07a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 65/75] fix: compact and fixrowsize accept columns with missing
 values in some frames only

---
 src/odc/tools/CompactTool.cc      | 4 +++-
 src/odc/tools/FixedSizeRowTool.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/CompactTool.cc b/src/odc/tools/CompactTool.cc
index 3690d66..966fdcb 100644
--- a/src/odc/tools/CompactTool.cc
+++ b/src/odc/tools/CompactTool.cc
@@ -54,7 +54,9 @@ void CompactTool::run() {
     odc::Reader::iterator it2  = outReader.begin();
     odc::Reader::iterator end2 = outReader.end();
 
-    odc::Comparator comparator;
+    // n.b. The frames of the copy may combine frames of the input with and without missing values
+    const bool skipTestingHaveMissing = true;
+    odc::Comparator comparator(skipTestingHaveMissing);
     comparator.compare(it1, end1, it2, end2, inFile, outFile);
 }
 
diff --git a/src/odc/tools/FixedSizeRowTool.cc b/src/odc/tools/FixedSizeRowTool.cc
index 2292be8..fab505f 100644
--- a/src/odc/tools/FixedSizeRowTool.cc
+++ b/src/odc/tools/FixedSizeRowTool.cc
@@ -50,7 +50,9 @@ void FixedSizeRowTool::run() {
     odc::Reader::iterator end1 = in.end();
     odc::Reader::iterator it2  = outReader.begin();
     odc::Reader::iterator end2 = outReader.end();
-    odc::Comparator comparator;
+    // n.b. The frames of the copy may combine frames of the input with and without missing values
+    const bool skipTestingHaveMissing = true;
+    odc::Comparator comparator(skipTestingHaveMissing);
     comparator.compare(it1, end1, it2, end2, inFile, outFile);
 }
 
-- 
2.43.0


From 0a41a0dec609aa59698610c006390287ec963a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 66/75] fix: copying or loading the metadata of a table leaks
 nothing when it fails

---
 src/odc/core/MetaData.cc | 38 +++++++++++++++++++-------------------
 src/odc/core/MetaData.h  | 25 +++++++++++--------------
 2 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/src/odc/core/MetaData.cc b/src/odc/core/MetaData.cc
index 04b2edc..80815f1 100644
--- a/src/odc/core/MetaData.cc
+++ b/src/odc/core/MetaData.cc
@@ -9,6 +9,7 @@
  */
 
 #include <algorithm>
+#include <memory>
 
 #include "eckit/log/Log.h"
 
@@ -29,7 +30,10 @@ MetaData::MetaData(int i) : std::vector<Column*>(i), rowsNumber_(0) {}
 MetaData::MetaData(int i, Column* p) : std::vector<Column*>(i, p), rowsNumber_(0) {}
 
 // SDS: n.b. this is changed from before. We
-MetaData::MetaData(const MetaData& md) : std::vector<Column*>(0), rowsNumber_(md.rowsNumber_), dataSize_(md.dataSize_) {
+// The columns already copied are deleted by the destructor if copying a further one fails.
+MetaData::MetaData(const MetaData& md) : MetaData() {
+    rowsNumber_ = md.rowsNumber_;
+    dataSize_   = md.dataSize_;
     *this += md;
 }
 
@@ -68,22 +72,22 @@ ColumnType MetaData::convertType(const std::string& t) {
 }
 
 MetaData* MetaData::clone() const {
-    MetaData* md = new MetaData(*this);
+    std::unique_ptr<MetaData> md(new MetaData(*this));
     for (size_t i = 0; i < size(); ++i)
         (*md)[i]->coder((*this)[i]->coder().clone());
-    return md;
+    return md.release();
 }
 
 void MetaData::setSize(size_t n) {
-    size_t oldSize = size();
-
-    for (size_t i = n; i < oldSize; ++i)
-        delete at(i);
-
-    std::vector<Column*>::resize(n, 0);
+    while (size() > n) {
+        delete back();
+        pop_back();
+    }
 
-    for (size_t i = oldSize; i < n; ++i)
-        at(i) = new Column(*this);
+    // n.b. There is never a column missing, even if this fails on the way.
+    reserve(n);
+    while (size() < n)
+        push_back(new Column(*this));
 }
 
 MetaData::~MetaData() {
@@ -130,11 +134,7 @@ MetaData& MetaData::operator=(const MetaData& other) {
             delete (*this)[i];
         clear();
 
-        typedef Column* PColumn;
-        resize(other.size(), PColumn(0));
-
-        for (size_type i = 0; i < size(); i++)
-            (*this)[i] = new Column(*this);
+        setSize(other.size());
     }
 
     for (size_type i = 0; i < size(); i++)
@@ -149,9 +149,9 @@ MetaData& MetaData::operator+=(const MetaData& rhs) {
 
         // LOG_DEBUG_LIB(LibOdc) << "MetaData::operator+=: adding " << rhsColumn << std::endl;
 
-        Column* c = new Column(rhsColumn);
-        ASSERT(c);
-        push_back(c);
+        std::unique_ptr<Column> c(new Column(rhsColumn));
+        push_back(c.get());
+        c.release();
     }
     return *this;
 }
diff --git a/src/odc/core/MetaData.h b/src/odc/core/MetaData.h
index 22f415b..07cb948 100644
--- a/src/odc/core/MetaData.h
+++ b/src/odc/core/MetaData.h
@@ -144,41 +144,38 @@ void MetaData::save(DataStream<ByteOrder>& ds) const {
 
 template <typename ByteOrder>
 void MetaData::load(DataStream<ByteOrder>& ds) {
-    for (size_t i = 0; i < size(); i++)
-        delete at(i);
-    clear();
+    setSize(0);
 
     int32_t nCols;
     ds.read(nCols);
     ds.checkRemaining(nCols);  // n.b. Each column takes at least one byte
-    resize(nCols, NULL);
-    for (size_t i = 0; i < size(); i++) {
-        delete at(i);
-        at(i) = new Column(*this);
-        at(i)->load(ds);
+    reserve(nCols);
+    for (int32_t i = 0; i < nCols; i++) {
+        push_back(new Column(*this));
+        back()->load(ds);
     }
 }
 
 template <typename ByteOrder>
 MetaData& MetaData::addColumnPrivate(const std::string& name, const std::string& type) {
-    Column* c = new Column(*this);
-    ASSERT(c);
+    std::unique_ptr<Column> c(new Column(*this));
 
     c->name(name);
     c->type<ByteOrder>(Column::type(type));
 
-    push_back(c);
+    push_back(c.get());
+    c.release();
     return *this;
 }
 
 template <typename ByteOrder>
 MetaData& MetaData::addBitfieldPrivate(const std::string& name, const eckit::sql::BitfieldDef& bd) {
-    Column* c = new Column(*this);
-    ASSERT(c);
+    std::unique_ptr<Column> c(new Column(*this));
     c->name(name);
     c->type<ByteOrder>(api::BITFIELD);
     c->bitfieldDef(bd);
-    push_back(c);
+    push_back(c.get());
+    c.release();
 
     return *this;
 }
-- 
2.43.0


From 125ea9e823e9014dde5f68d443ef33fc9c22b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:48 +0000
Subject: [PATCH 67/75] fix: running out of memory while an error is described
 does not escape through the C interface

---
 src/odc/api/odc.cc | 50 +++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 9309e3b..78b2b51 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -124,6 +124,7 @@ struct odc_encoder_t {
 
 // The error of a call is described to the thread that made it
 static thread_local std::string g_current_error_str;
+static thread_local const char* g_current_error = "";
 static odc_failure_handler_t g_failure_handler = nullptr;
 static void* g_failure_handler_context         = nullptr;
 
@@ -133,7 +134,7 @@ const char* odc_error_string(int err) {
             return "Success";
         case ODC_ERROR_GENERAL_EXCEPTION:
         case ODC_ERROR_UNKNOWN_EXCEPTION:
-            return g_current_error_str.c_str();
+            return g_current_error;
         case ODC_ITERATION_COMPLETE:
             return "Iteration complete";
         default:
@@ -158,35 +159,42 @@ int innerWrapFn(std::function<void()> f) {
     return ODC_SUCCESS;
 }
 
+// n.b. Describing an error takes memory. If there is none, this must neither replace the error nor escape to the caller.
+
+int reportError(int err, const char* logged, const char* detail, const char* description) {
+
+    try {
+        Log::error() << logged << detail << std::endl;
+    }
+    catch (...) {
+    }
+
+    try {
+        g_current_error_str = description;
+        g_current_error     = g_current_error_str.c_str();
+    }
+    catch (...) {
+        g_current_error = "Out of memory";
+    }
+
+    if (g_failure_handler) {
+        g_failure_handler(g_failure_handler_context, err);
+    }
+    return err;
+}
+
 template <typename FN>
 int wrapApiFunction(FN f) {
 
     try {
         return innerWrapFn(f);
     }
-    catch (Exception& e) {
-        Log::error() << "Caught exception on C-C++ API boundary: " << e.what() << std::endl;
-        g_current_error_str = e.what();
-        if (g_failure_handler) {
-            g_failure_handler(g_failure_handler_context, ODC_ERROR_GENERAL_EXCEPTION);
-        }
-        return ODC_ERROR_GENERAL_EXCEPTION;
-    }
     catch (std::exception& e) {
-        Log::error() << "Caught exception on C-C++ API boundary: " << e.what() << std::endl;
-        g_current_error_str = e.what();
-        if (g_failure_handler) {
-            g_failure_handler(g_failure_handler_context, ODC_ERROR_GENERAL_EXCEPTION);
-        }
-        return ODC_ERROR_GENERAL_EXCEPTION;
+        return reportError(ODC_ERROR_GENERAL_EXCEPTION, "Caught exception on C-C++ API boundary: ", e.what(), e.what());
     }
     catch (...) {
-        Log::error() << "Caught unknown on C-C++ API boundary" << std::endl;
-        g_current_error_str = "Unrecognised and unknown exception";
-        if (g_failure_handler) {
-            g_failure_handler(g_failure_handler_context, ODC_ERROR_UNKNOWN_EXCEPTION);
-        }
-        return ODC_ERROR_UNKNOWN_EXCEPTION;
+        return reportError(ODC_ERROR_UNKNOWN_EXCEPTION, "Caught unknown on C-C++ API boundary", "",
+                           "Unrecognised and unknown exception");
     }
 
     ASSERT(false);
-- 
2.43.0


From f4cddf37384db7a4b73938121941cb358faf64f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:43 +0000
Subject: [PATCH 68/75] fix: a reader that cannot be constructed leaves neither
 its data handle nor its descriptor behind

---
 src/odc/api/Odb.cc                     | 13 ++++++++-----
 src/odc/api/odc.cc                     | 23 +++++++++++++++++------
 src/odc/core/ThreadSharedDataHandle.cc | 12 ++++++------
 src/odc/core/ThreadSharedDataHandle.h  |  3 ++-
 4 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index ec39aa6..3247522 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -89,7 +89,7 @@ public:  // methods
 
     ReaderImpl(const std::string& path, bool aggregated, long rowlimit);
     ReaderImpl(eckit::DataHandle& dh, bool aggregated, long rowlimit);
-    ReaderImpl(eckit::DataHandle* dh, bool aggregated, long rowlimit);
+    ReaderImpl(std::unique_ptr<eckit::DataHandle> dh, bool aggregated, long rowlimit);
 
     void restart();
     Frame next();
@@ -113,8 +113,8 @@ ReaderImpl::ReaderImpl(const std::string& path, bool aggregated, long rowlimit)
 ReaderImpl::ReaderImpl(eckit::DataHandle& dh, bool aggregated, long rowlimit) :
     tablesReader_(dh), it_(tablesReader_.begin()), rowlimit_(rowlimit), aggregated_(aggregated), first_(true) {}
 
-ReaderImpl::ReaderImpl(eckit::DataHandle* dh, bool aggregated, long rowlimit) :
-    tablesReader_(dh), it_(tablesReader_.begin()), rowlimit_(rowlimit), aggregated_(aggregated), first_(true) {}
+ReaderImpl::ReaderImpl(std::unique_ptr<eckit::DataHandle> dh, bool aggregated, long rowlimit) :
+    tablesReader_(dh.release()), it_(tablesReader_.begin()), rowlimit_(rowlimit), aggregated_(aggregated), first_(true) {}
 
 void ReaderImpl::restart() {
     it_    = tablesReader_.begin();
@@ -206,8 +206,11 @@ Reader::Reader(const std::string& path, bool aggregated, long rowlimit) :
 Reader::Reader(eckit::DataHandle& dh, bool aggregated, long rowlimit) :
     impl_(new ReaderImpl(dh, aggregated, rowlimit)) {}
 
-Reader::Reader(eckit::DataHandle* dh, bool aggregated, long rowlimit) :
-    impl_(new ReaderImpl(dh, aggregated, rowlimit)) {}
+// n.b. The data handle is ours, even if this fails
+Reader::Reader(eckit::DataHandle* dh, bool aggregated, long rowlimit) {
+    std::unique_ptr<eckit::DataHandle> owned(dh);
+    impl_.reset(new ReaderImpl(std::move(owned), aggregated, rowlimit));
+}
 
 Reader::~Reader() {}
 
diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 78b2b51..c8a0e1c 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -33,7 +33,7 @@ extern "C" {
 //----------------------------------------------------------------------------------------------------------------------
 
 struct odc_reader_t {
-    odc_reader_t(DataHandle* dh) : impl_(nullptr), dh_(dh) { dh_->openForRead(); }
+    odc_reader_t(std::unique_ptr<DataHandle> dh) : impl_(nullptr), dh_(std::move(dh)) { dh_->openForRead(); }
     ~odc_reader_t() noexcept(false) { dh_->close(); }
     std::unique_ptr<Reader> impl_;
     std::unique_ptr<DataHandle> dh_;
@@ -308,7 +308,7 @@ int odc_vcs_version(const char** sha1) {
 int odc_open_path(odc_reader_t** reader, const char* filename) {
     return wrapApiFunction([reader, filename] {
         //        ASSERT(!(*reader));
-        (*reader) = new odc_reader_t(PathName(filename).fileHandle());
+        (*reader) = new odc_reader_t(std::unique_ptr<DataHandle>(PathName(filename).fileHandle()));
     });
 }
 
@@ -338,12 +338,22 @@ int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
         int fd2 = dup(fd);
         if (fd2 == -1)
             throw CantOpenFile("dup() failed on supplied file descriptor", Here());
-        (*reader) = new odc_reader_t(new OwnedFileDescHandle(fd2));
+        std::unique_ptr<OwnedFileDescHandle> dh;
+        try {
+            dh.reset(new OwnedFileDescHandle(fd2));
+        }
+        catch (...) {
+            ::close(fd2);
+            throw;
+        }
+        (*reader) = new odc_reader_t(std::move(dh));
     });
 }
 
 int odc_open_buffer(odc_reader_t** reader, const void* data, long length) {
-    return wrapApiFunction([reader, data, length] { (*reader) = new odc_reader_t(new MemoryHandle(data, length)); });
+    return wrapApiFunction([reader, data, length] {
+        (*reader) = new odc_reader_t(std::unique_ptr<DataHandle>(new MemoryHandle(data, length)));
+    });
 }
 
 int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t stream_proc) {
@@ -389,8 +399,9 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
         Offset position_ = 0;
     };
 
-    return wrapApiFunction(
-        [reader, handle, stream_proc] { (*reader) = new odc_reader_t(new ReadStreamDataHandle(handle, stream_proc)); });
+    return wrapApiFunction([reader, handle, stream_proc] {
+        (*reader) = new odc_reader_t(std::unique_ptr<DataHandle>(new ReadStreamDataHandle(handle, stream_proc)));
+    });
 }
 
 int odc_close(const odc_reader_t* reader) {
diff --git a/src/odc/core/ThreadSharedDataHandle.cc b/src/odc/core/ThreadSharedDataHandle.cc
index 4a1116a..d825840 100644
--- a/src/odc/core/ThreadSharedDataHandle.cc
+++ b/src/odc/core/ThreadSharedDataHandle.cc
@@ -20,11 +20,11 @@ namespace core {
 //----------------------------------------------------------------------------------------------------------------------
 
 
-ThreadSharedDataHandle::Internal::Internal(eckit::DataHandle* dh, bool owned) : dh_(dh), owned_(owned) {
+ThreadSharedDataHandle::Internal::Internal(eckit::DataHandle& dh) : dh_(&dh), owned_(false) {}
 
-    if (owned_) {
-        dh_->openForRead();
-    }
+ThreadSharedDataHandle::Internal::Internal(std::unique_ptr<eckit::DataHandle> dh) : dh_(dh.get()), owned_(true) {
+    dh_->openForRead();
+    dh.release();
 }
 
 ThreadSharedDataHandle::Internal::~Internal() {
@@ -42,11 +42,11 @@ ThreadSharedDataHandle::Internal::~Internal() {
 
 
 ThreadSharedDataHandle::ThreadSharedDataHandle(eckit::DataHandle& dh) :
-    internal_(std::make_shared<ThreadSharedDataHandle::Internal>(&dh, false)), position_(internal_->dh_->position()) {}
+    internal_(std::make_shared<ThreadSharedDataHandle::Internal>(dh)), position_(internal_->dh_->position()) {}
 
 
 ThreadSharedDataHandle::ThreadSharedDataHandle(eckit::DataHandle* dh) :
-    internal_(std::make_shared<ThreadSharedDataHandle::Internal>(dh, true)), position_(internal_->dh_->position()) {}
+    internal_(std::make_shared<ThreadSharedDataHandle::Internal>(std::unique_ptr<eckit::DataHandle>(dh))), position_(internal_->dh_->position()) {}
 
 
 ThreadSharedDataHandle::~ThreadSharedDataHandle() {}
diff --git a/src/odc/core/ThreadSharedDataHandle.h b/src/odc/core/ThreadSharedDataHandle.h
index e798eca..229630b 100644
--- a/src/odc/core/ThreadSharedDataHandle.h
+++ b/src/odc/core/ThreadSharedDataHandle.h
@@ -65,7 +65,8 @@ private:  // members
 
     struct Internal {
 
-        Internal(eckit::DataHandle* dh, bool owned);
+        explicit Internal(eckit::DataHandle& dh);
+        explicit Internal(std::unique_ptr<eckit::DataHandle> dh);
         ~Internal();
 
         std::mutex m_;
-- 
2.43.0


From d8e779a568eed6ad1d689653c82a0d0354ae22c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:21 +0000
Subject: [PATCH 69/75] fix: readers, selects and CSV readers that cannot be
 constructed leak nothing

---
 src/odc/Reader.cc                 | 15 ++++++++++-----
 src/odc/Select.cc                 |  6 ++++--
 src/odc/csv/TextReaderIterator.cc | 26 ++++++++------------------
 src/odc/csv/TextReaderIterator.h  | 10 ++++++----
 4 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/src/odc/Reader.cc b/src/odc/Reader.cc
index 855f31e..4e99669 100644
--- a/src/odc/Reader.cc
+++ b/src/odc/Reader.cc
@@ -10,6 +10,8 @@
 
 #include "odc/Reader.h"
 
+#include <memory>
+
 #include "eckit/io/DataHandle.h"
 #include "eckit/log/Log.h"
 
@@ -37,7 +39,9 @@ Reader& Reader::operator=(Reader&& rhs) {
     return *this;
 }
 
-Reader::Reader(const eckit::PathName& path) : dataHandle_(path.fileHandle()), deleteDataHandle_(true), path_(path) {}
+Reader::Reader(const eckit::PathName& path) : dataHandle_(0), deleteDataHandle_(true), path_(path) {
+    dataHandle_ = path_.fileHandle();
+}
 
 Reader::~Reader() {
     noMoreData();
@@ -52,9 +56,9 @@ ReaderIterator* Reader::createReadIterator() {
 }
 
 Reader::iterator Reader::begin() {
-    ReaderIterator* it = new ReaderIterator(*this);
+    std::unique_ptr<ReaderIterator> it(new ReaderIterator(*this));
     it->next();
-    return iterator(it);
+    return iterator(it.release());
 }
 
 const Reader::iterator Reader::end() const {
@@ -78,8 +82,9 @@ void Reader::noMoreData() {
 eckit::DataHandle* Reader::dataHandle() {
     // Assume the Reader was constructed with a path, and not a DataHandle*
     if (!dataHandle_) {
-        dataHandle_ = path_.fileHandle();
-        dataHandle_->openForRead();
+        std::unique_ptr<DataHandle> dh(path_.fileHandle());
+        dh->openForRead();
+        dataHandle_       = dh.release();
         deleteDataHandle_ = true;
     }
 
diff --git a/src/odc/Select.cc b/src/odc/Select.cc
index 58b066a..f3f46db 100644
--- a/src/odc/Select.cc
+++ b/src/odc/Select.cc
@@ -12,6 +12,8 @@
 /// @author Simon Smart
 /// @date April 2010
 
+#include <memory>
+
 #include "eckit/filesystem/PathName.h"
 #include "eckit/io/DataHandle.h"
 #include "eckit/log/Log.h"
@@ -93,10 +95,10 @@ const Select::iterator Select::end() {
 // iterate once, so we MUST NOT create two iterators if begin() is called twice.
 Select::iterator Select::begin() {
     if (!initted_) {
-        SelectIterator* it = createSelectIterator(selectStatement_);
+        std::unique_ptr<SelectIterator> it(createSelectIterator(selectStatement_));
         ASSERT(it);
         it->next();
-        it_      = iterator(it);
+        it_      = iterator(it.release());
         initted_ = true;
     }
     return it_;
diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index ffb6668..ae31631 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -72,8 +72,6 @@ std::vector<std::string> splitLine(const std::string& delimiter, const std::stri
 
 TextReaderIterator::TextReaderIterator(TextReader& owner) :
     columns_(0),
-    lastValues_(0),
-    columnOffsets_(0),
     nrows_(0),
     delimiter_(owner.delimiter()),
     in_(0),
@@ -90,8 +88,6 @@ TextReaderIterator::TextReaderIterator(TextReader& owner) :
 
 TextReaderIterator::TextReaderIterator(TextReader& owner, const PathName& pathName) :
     columns_(0),
-    lastValues_(0),
-    columnOffsets_(0),
     nrows_(0),
     delimiter_(owner.delimiter()),
     in_(0),
@@ -99,11 +95,12 @@ TextReaderIterator::TextReaderIterator(TextReader& owner, const PathName& pathNa
     noMore_(false),
     ownsF_(false),
     refCount_(0) {
-    in_ = new std::ifstream(pathName.localPath());
-    ASSERT(in_);
-    ownsF_ = true;
+    std::unique_ptr<std::istream> in(new std::ifstream(pathName.localPath()));
+    in_ = in.get();
     parseHeader();
     next();
+    in.release();
+    ownsF_ = true;
 }
 
 eckit::sql::BitfieldDef TextReaderIterator::parseBitfields(const std::string& c) {
@@ -200,8 +197,6 @@ void TextReaderIterator::parseHeader() {
 
 TextReaderIterator::~TextReaderIterator() {
     close();
-    delete[] lastValues_;
-    delete[] columnOffsets_;
 }
 
 
@@ -210,17 +205,14 @@ bool TextReaderIterator::operator!=(const TextReaderIterator& other) {
 }
 
 void TextReaderIterator::initRowBuffer() {
-    delete[] lastValues_;
-    delete[] columnOffsets_;
-
     rowDataSizeDoubles_ = 0;
-    columnOffsets_      = new size_t[columns().size()];
+    columnOffsets_.reset(new size_t[columns().size()]);
     for (size_t i = 0; i < columns().size(); i++) {
         columnOffsets_[i] = rowDataSizeDoubles_;
         rowDataSizeDoubles_ += columns()[i]->dataSizeDoubles();
     }
 
-    lastValues_ = new double[rowDataSizeDoubles_];
+    lastValues_.reset(new double[rowDataSizeDoubles_]);
     for (size_t i = 0; i < columns().size(); i++)
         lastValues_[columnOffsets_[i]] = columns()[i]->missingValue();
 }
@@ -271,12 +263,10 @@ bool TextReaderIterator::next() {
                         columns_[i]->dataSizeDoubles(lenDoubles);
 
                         // Allocate a new buffer, but keep the old data around
-                        double* oldData = lastValues_;
-                        lastValues_     = 0;
+                        std::unique_ptr<double[]> oldData(std::move(lastValues_));
                         initRowBuffer();
                         ASSERT(oldData);
-                        ::memcpy(lastValues_, oldData, columnOffsets_[i] * sizeof(double));
-                        delete[] oldData;
+                        ::memcpy(lastValues_.get(), oldData.get(), columnOffsets_[i] * sizeof(double));
                     }
 
                     char* buf  = reinterpret_cast<char*>(&lastValues_[columnOffsets_[i]]);
diff --git a/src/odc/csv/TextReaderIterator.h b/src/odc/csv/TextReaderIterator.h
index 50c480d..24a7eed 100644
--- a/src/odc/csv/TextReaderIterator.h
+++ b/src/odc/csv/TextReaderIterator.h
@@ -16,6 +16,8 @@
 #ifndef TextReaderIterator_H
 #define TextReaderIterator_H
 
+#include <memory>
+
 #include "odc/IteratorProxy.h"
 #include "odc/core/MetaData.h"
 
@@ -49,8 +51,8 @@ public:
     ~TextReaderIterator();
 
     bool isNewDataset();
-    const double* data() const { return lastValues_; }
-    double* data() { return lastValues_; }
+    const double* data() const { return lastValues_.get(); }
+    double* data() { return lastValues_.get(); }
     double& data(size_t);
     // long integer(int i);
 
@@ -81,8 +83,8 @@ private:
     void parseHeader();
 
     core::MetaData columns_;
-    double* lastValues_;
-    size_t* columnOffsets_;
+    std::unique_ptr<double[]> lastValues_;
+    std::unique_ptr<size_t[]> columnOffsets_;
     size_t rowDataSizeDoubles_;
     unsigned long long nrows_;
     std::string delimiter_;
-- 
2.43.0


From fad2896af201333f7faec08d57755cb84b6a5bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 70/75] fix: destroying readers and writers does not end the
 process or free buffers twice when memory has run out

---
 src/odc/Reader.cc                      |  4 ++-
 src/odc/ReaderIterator.cc              |  2 +-
 src/odc/Select.cc                      |  3 +-
 src/odc/WriterBufferingIterator.cc     | 43 ++++++++------------------
 src/odc/WriterBufferingIterator.h      | 10 +++---
 src/odc/core/Exceptions.cc             | 11 +++++++
 src/odc/core/Exceptions.h              |  4 +++
 src/odc/core/ThreadSharedDataHandle.cc |  4 ++-
 src/odc/odccapi.cc                     |  3 +-
 9 files changed, 45 insertions(+), 39 deletions(-)

diff --git a/src/odc/Reader.cc b/src/odc/Reader.cc
index 4e99669..363db4c 100644
--- a/src/odc/Reader.cc
+++ b/src/odc/Reader.cc
@@ -15,6 +15,8 @@
 #include "eckit/io/DataHandle.h"
 #include "eckit/log/Log.h"
 
+#include "odc/core/Exceptions.h"
+
 
 using namespace std;
 using namespace eckit;
@@ -72,7 +74,7 @@ void Reader::noMoreData() {
             dataHandle_->close();
         }
         catch (std::exception& e) {
-            eckit::Log::error() << "Closing failed: " << e.what() << std::endl;
+            core::logFailure("Closing failed", e);
         }
         delete dataHandle_;
     }
diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index b203614..f1e4263 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -143,7 +143,7 @@ ReaderIterator::~ReaderIterator() noexcept(false) {
         close();
     }
     catch (std::exception& e) {
-        eckit::Log::error() << "Closing failed: " << e.what() << std::endl;
+        core::logFailure("Closing failed", e);
     }
 }
 
diff --git a/src/odc/Select.cc b/src/odc/Select.cc
index f3f46db..571a568 100644
--- a/src/odc/Select.cc
+++ b/src/odc/Select.cc
@@ -20,6 +20,7 @@
 
 #include "odc/Select.h"
 #include "odc/SelectIterator.h"
+#include "odc/core/Exceptions.h"
 #include "odc/sql/SQLOutputConfig.h"
 #include "odc/sql/SQLSelectOutput.h"
 #include "odc/sql/TODATable.h"
@@ -69,7 +70,7 @@ Select::~Select() noexcept(false) {
             ownDH_->close();
         }
         catch (std::exception& e) {
-            eckit::Log::error() << "Closing failed: " << e.what() << std::endl;
+            core::logFailure("Closing failed", e);
         }
     }
 }
diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 5131164..1a45899 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -20,6 +20,7 @@
 #include "odc/LibOdc.h"
 #include "odc/Writer.h"
 #include "odc/WriterBufferingIterator.h"
+#include "odc/core/Exceptions.h"
 #include "odc/core/Header.h"
 
 using namespace eckit;
@@ -36,10 +37,6 @@ WriterBufferingIterator::WriterBufferingIterator(Owner& owner, DataHandle* dh, b
     refCount_(0),
     owner_(owner),
     columns_(0),
-    lastValues_(0),
-    nextRow_(0),
-    columnOffsets_(0),
-    columnByteSizes_(0),
     nrows_(0),
     path_(owner.path()),
     initialisedColumns_(false),
@@ -62,10 +59,6 @@ WriterBufferingIterator::WriterBufferingIterator(Owner& owner, DataHandle& dh, b
     refCount_(0),
     owner_(owner),
     columns_(0),
-    lastValues_(0),
-    nextRow_(0),
-    columnOffsets_(0),
-    columnByteSizes_(0),
     nrows_(0),
     path_(owner.path()),
     initialisedColumns_(false),
@@ -88,19 +81,15 @@ WriterBufferingIterator::~WriterBufferingIterator() {
         close();
     }
     catch (std::exception& e) {
-        Log::error() << "Error writing " << path_ << ": " << e.what() << std::endl;
+        logFailure(path_.localPath(), e);
     }
     try {
         if (ownsDataHandle_ || closeDataHandle_)
             closeHandle();
     }
     catch (std::exception& e) {
-        Log::error() << "Error closing " << path_ << ": " << e.what() << std::endl;
+        logFailure(path_.localPath(), e);
     }
-    delete[] lastValues_;
-    delete[] nextRow_;
-    delete[] columnOffsets_;
-    delete[] columnByteSizes_;
 }
 
 unsigned long WriterBufferingIterator::gatherStats(const double* values, unsigned long count) {
@@ -121,11 +110,6 @@ int WriterBufferingIterator::setOptimalCodecs() {
 }
 
 void WriterBufferingIterator::allocBuffers() {
-    delete[] lastValues_;
-    delete[] nextRow_;
-    delete[] columnOffsets_;
-    delete[] columnByteSizes_;
-
     // Don't do anything until evenything is initialised (this check is before we do rowDataSizeDoubles
     // which makes use of the coders).
 
@@ -140,14 +124,13 @@ void WriterBufferingIterator::allocBuffers() {
     int32_t numDoubles = rowDataSizeDoubles();
     int32_t colSize    = columns().size();
 
-    lastValues_      = new double[numDoubles];
-    nextRow_         = new double[numDoubles];
-    columnOffsets_   = new size_t[colSize];
-    columnByteSizes_ = new size_t[colSize];
-    ASSERT(lastValues_);
+    lastValues_.reset(new double[numDoubles]);
+    nextRow_.reset(new double[numDoubles]);
+    columnOffsets_.reset(new size_t[colSize]);
+    columnByteSizes_.reset(new size_t[colSize]);
 
-    ::memset(lastValues_, 0, numDoubles * sizeof(double));
-    ::memset(nextRow_, 0, numDoubles * sizeof(double));
+    ::memset(lastValues_.get(), 0, numDoubles * sizeof(double));
+    ::memset(nextRow_.get(), 0, numDoubles * sizeof(double));
 
     // Initialise data
 
@@ -183,7 +166,7 @@ bool WriterBufferingIterator::describedAlike(const MetaData& a, const MetaData&
 void WriterBufferingIterator::resetLastValues() {
     // The first row of a frame is encoded relative to the missing values
 
-    ::memset(lastValues_, 0, rowDataSizeDoubles() * sizeof(double));
+    ::memset(lastValues_.get(), 0, rowDataSizeDoubles() * sizeof(double));
     for (size_t i = 0; i < columns().size(); ++i)
         lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();
 
@@ -243,11 +226,11 @@ void WriterBufferingIterator::writeHeader() {
 }
 
 bool WriterBufferingIterator::next() {
-    return writeRow(nextRow_, columns().size()) == 0;
+    return writeRow(nextRow_.get(), columns().size()) == 0;
 }
 
 double* WriterBufferingIterator::data() {
-    return nextRow_;
+    return nextRow_.get();
 }
 double& WriterBufferingIterator::data(size_t i) {
     ASSERT(initialisedColumns_);
@@ -286,7 +269,7 @@ size_t WriterBufferingIterator::rowDataSizeDoublesInternal() const {
 }
 
 int WriterBufferingIterator::doWriteRow(core::DataStream<core::SameByteOrder>& stream, const double* values) {
-    if (lastValues_ == 0)
+    if (!lastValues_)
         allocBuffers();
 
     // Find where the first changing row is
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 7fbc473..2a7b854 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -16,6 +16,8 @@
 #ifndef odc_WriterBufferingIterator_H
 #define odc_WriterBufferingIterator_H
 
+#include <memory>
+
 #include "eckit/filesystem/PathName.h"
 #include "eckit/io/HandleHolder.h"
 #include "eckit/log/Log.h"
@@ -128,10 +130,10 @@ protected:
 
     Owner& owner_;
     core::MetaData columns_;
-    double* lastValues_;
-    double* nextRow_;
-    size_t* columnOffsets_;  // in doubles
-    size_t* columnByteSizes_;
+    std::unique_ptr<double[]> lastValues_;
+    std::unique_ptr<double[]> nextRow_;
+    std::unique_ptr<size_t[]> columnOffsets_;  // in doubles
+    std::unique_ptr<size_t[]> columnByteSizes_;
     unsigned long long nrows_;
 
     eckit::PathName path_;
diff --git a/src/odc/core/Exceptions.cc b/src/odc/core/Exceptions.cc
index ab327f1..3f92ebd 100644
--- a/src/odc/core/Exceptions.cc
+++ b/src/odc/core/Exceptions.cc
@@ -10,12 +10,23 @@
 
 #include "odc/core/Exceptions.h"
 
+#include "eckit/log/Log.h"
+
 
 namespace odc {
 namespace core {
 
 //----------------------------------------------------------------------------------------------------------------------
 
+void logFailure(const char* what, const std::exception& e) noexcept {
+    try {
+        eckit::Log::error() << what << ": " << e.what() << std::endl;
+    }
+    catch (...) {
+    }
+}
+
+
 ODBDecodeError::ODBDecodeError(const std::string& s, const eckit::CodeLocation& loc) :
     Exception(std::string("ODB decode failure: ") + s, loc) {}
 
diff --git a/src/odc/core/Exceptions.h b/src/odc/core/Exceptions.h
index f94f9a9..e6b369f 100644
--- a/src/odc/core/Exceptions.h
+++ b/src/odc/core/Exceptions.h
@@ -22,6 +22,10 @@ namespace core {
 
 //----------------------------------------------------------------------------------------------------------------------
 
+/// Log a failure where it cannot be reported otherwise (i.e. in destructors). Logging may fail as well, and this never
+/// throws.
+void logFailure(const char* what, const std::exception& e) noexcept;
+
 
 class ODBDecodeError : public eckit::Exception {
 public:
diff --git a/src/odc/core/ThreadSharedDataHandle.cc b/src/odc/core/ThreadSharedDataHandle.cc
index d825840..40c72c4 100644
--- a/src/odc/core/ThreadSharedDataHandle.cc
+++ b/src/odc/core/ThreadSharedDataHandle.cc
@@ -14,6 +14,8 @@
 #include "eckit/exception/Exceptions.h"
 #include "eckit/log/Log.h"
 
+#include "odc/core/Exceptions.h"
+
 namespace odc {
 namespace core {
 
@@ -34,7 +36,7 @@ ThreadSharedDataHandle::Internal::~Internal() {
             dh_->close();
         }
         catch (std::exception& e) {
-            eckit::Log::error() << "Closing failed: " << e.what() << std::endl;
+            logFailure("Closing failed", e);
         }
         delete dh_;
     }
diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index 97cb406..5880c74 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -23,6 +23,7 @@
 #include "odc/SelectIterator.h"
 #include "odc/Writer.h"
 #include "odc/api/odc.h"
+#include "odc/core/Exceptions.h"
 #include "odc/core/MetaData.h"
 #include "odc/core/TablesReader.h"
 #include "odc/odccapi.h"
@@ -383,7 +384,7 @@ int odb_write_iterator_destroy(oda_write_iterator_ptr wi) {
         return w ? w->close() : 0;
     }
     catch (std::exception& e) {
-        eckit::Log::error() << "odb_write_iterator_destroy: " << e.what() << std::endl;
+        odc::core::logFailure("odb_write_iterator_destroy", e);
         return 1;
     }
 }
-- 
2.43.0


From 46e6c04927982f66b4bc7e02bc6e36089e0e307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 71/75] fix: writers that cannot be constructed do not leave
 their data handle behind

---
 src/odc/ODBAPISettings.cc | 16 ++++++++++------
 src/odc/Writer.cc         | 28 +++++++++++++++++-----------
 src/odc/odccapi.cc        | 14 ++++++++------
 3 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/odc/ODBAPISettings.cc b/src/odc/ODBAPISettings.cc
index a194751..ad0bb14 100644
--- a/src/odc/ODBAPISettings.cc
+++ b/src/odc/ODBAPISettings.cc
@@ -10,6 +10,8 @@
 
 #include <unistd.h>
 
+#include <memory>
+
 #include "eckit/config/Resource.h"
 #ifdef HAVE_AIO_H
 #include "eckit/io/AIOHandle.h"
@@ -142,24 +144,26 @@ DataHandle* ODBAPISettings::writeToFile(const PathName& fn, const Length& length
     createDirectories(fn);
 
 #ifdef HAVE_AIO_H
-    DataHandle* h(useAIO_ ? static_cast<DataHandle*>(new AIOHandle(fn)) : static_cast<DataHandle*>(new FileHandle(fn)));
+    std::unique_ptr<DataHandle> h(useAIO_ ? static_cast<DataHandle*>(new AIOHandle(fn))
+                                          : static_cast<DataHandle*>(new FileHandle(fn)));
 #else
-    DataHandle* h(static_cast<DataHandle*>(new FileHandle(fn)));
+    std::unique_ptr<DataHandle> h(new FileHandle(fn));
 #endif
     if (openDataHandle)
         h->openForWrite(length);
-    return h;
+    return h.release();
 }
 
 DataHandle* ODBAPISettings::appendToFile(const PathName& fn, const Length& length, bool openDataHandle) {
 #ifdef HAVE_AIO_H
-    DataHandle* h(useAIO_ ? static_cast<DataHandle*>(new AIOHandle(fn)) : static_cast<DataHandle*>(new FileHandle(fn)));
+    std::unique_ptr<DataHandle> h(useAIO_ ? static_cast<DataHandle*>(new AIOHandle(fn))
+                                          : static_cast<DataHandle*>(new FileHandle(fn)));
 #else
-    DataHandle* h(static_cast<DataHandle*>(new FileHandle(fn)));
+    std::unique_ptr<DataHandle> h(new FileHandle(fn));
 #endif
     if (openDataHandle)
         h->openForAppend(length);
-    return h;
+    return h.release();
 }
 
 }  // namespace odc
diff --git a/src/odc/Writer.cc b/src/odc/Writer.cc
index a14b733..764ec04 100644
--- a/src/odc/Writer.cc
+++ b/src/odc/Writer.cc
@@ -19,6 +19,7 @@
 #include <math.h>
 #include <algorithm>
 #include <iostream>
+#include <memory>
 #include <sstream>
 // #include <values.h>
 
@@ -66,13 +67,19 @@ Writer<ITERATOR>::Writer(const eckit::PathName& path) :
 }
 
 template <typename ITERATOR>
-Writer<ITERATOR>::Writer(eckit::DataHandle* dh, bool openDataHandle, bool deleteDataHandle) :
+Writer<ITERATOR>::Writer(eckit::DataHandle* dh, bool openDataHandle, bool deleteDataHandle) try :
     path_(""),
     dataHandle_(dh),
     rowsBufferSize_(
         eckit::Resource<long>("$ODB_ROWS_BUFFER_SIZE;-rowsBufferSize;rowsBufferSize", DEFAULT_ROWS_BUFFER_SIZE)),
     openDataHandle_(openDataHandle),
-    deleteDataHandle_(deleteDataHandle) {}
+    deleteDataHandle_(deleteDataHandle) {
+}
+catch (...) {
+    // n.b. The data handle is ours, even if this fails
+    if (deleteDataHandle)
+        delete dh;
+}
 
 template <typename ITERATOR>
 Writer<ITERATOR>::Writer(eckit::DataHandle& dh, bool openDataHandle) :
@@ -91,24 +98,23 @@ Writer<ITERATOR>::~Writer() {
 
 template <typename ITERATOR>
 typename Writer<ITERATOR>::iterator Writer<ITERATOR>::begin(bool openDataHandle) {
-    eckit::DataHandle* dh = 0;
     if (dataHandle_ == 0) {
-        dh = ODBAPISettings::instance().writeToFile(path_, eckit::Length(0), false);
-        return typename Writer::iterator(new ITERATOR(*this, dh, openDataHandle));
+        std::unique_ptr<eckit::DataHandle> dh(
+            ODBAPISettings::instance().writeToFile(path_, eckit::Length(0), false));
+        // n.b. the iterator is allocated first, and owns the data handle from then on
+        return typename Writer::iterator(new ITERATOR(*this, dh.release(), openDataHandle));
     }
     else {
-        ASSERT(dataHandle_);
-        dh = dataHandle_;
-        return typename Writer::iterator(new ITERATOR(*this, *dh, openDataHandle));
+        return typename Writer::iterator(new ITERATOR(*this, *dataHandle_, openDataHandle));
     }
 }
 
 template <typename ITERATOR>
 ITERATOR* Writer<ITERATOR>::createWriteIterator(eckit::PathName pathName, bool append) {
     eckit::Length estimatedLength = 10 * 1024 * 1024;
-    eckit::DataHandle* h          = append ? ODBAPISettings::instance().appendToFile(pathName, estimatedLength)
-                                           : ODBAPISettings::instance().writeToFile(pathName, estimatedLength);
-    return new ITERATOR(*this, h, false);
+    std::unique_ptr<eckit::DataHandle> h(append ? ODBAPISettings::instance().appendToFile(pathName, estimatedLength)
+                                                : ODBAPISettings::instance().writeToFile(pathName, estimatedLength));
+    return new ITERATOR(*this, h.release(), false);
 }
 
 // Explicit templates' instantiations.
diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index 5880c74..fee2bd7 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -358,10 +358,11 @@ int odb_select_iterator_get_next_row(oda_select_iterator_ptr it, int count, doub
 oda_write_iterator_ptr odb_create_append_iterator(oda_ptr co, const char* filename, int* err) {
     Writer<>* o(reinterpret_cast<Writer<>*>(co));
     eckit::Length estimatedLength(0);
-    DataHandle* fh = ODBAPISettings::instance().appendToFile(PathName(std::string(filename)), estimatedLength, true);
+    std::unique_ptr<DataHandle> fh(
+        ODBAPISettings::instance().appendToFile(PathName(std::string(filename)), estimatedLength, true));
 
-    // TODO: make sure there's no leaks (FileHandle)
-    Writer<>::iterator_class* w(new Writer<>::iterator_class(*o, fh, false));
+    // n.b. the iterator is allocated first, and owns the data handle from then on
+    Writer<>::iterator_class* w(new Writer<>::iterator_class(*o, fh.release(), false));
     *err = !w;
     return oda_write_iterator_ptr(w);
 }
@@ -369,10 +370,11 @@ oda_write_iterator_ptr odb_create_append_iterator(oda_ptr co, const char* filena
 oda_write_iterator_ptr odb_create_write_iterator(oda_ptr co, const char* filename, int* err) {
     Writer<>* o(reinterpret_cast<Writer<>*>(co));
     eckit::Length estimatedLength(0);
-    DataHandle* fh = ODBAPISettings::instance().writeToFile(PathName(std::string(filename)), estimatedLength, true);
+    std::unique_ptr<DataHandle> fh(
+        ODBAPISettings::instance().writeToFile(PathName(std::string(filename)), estimatedLength, true));
 
-    // TODO: make sure there's no leaks (FileHandle)
-    Writer<>::iterator_class* w(new Writer<>::iterator_class(*o, fh, false));
+    // n.b. the iterator is allocated first, and owns the data handle from then on
+    Writer<>::iterator_class* w(new Writer<>::iterator_class(*o, fh.release(), false));
     *err = !w;
     return oda_write_iterator_ptr(w);
 }
-- 
2.43.0


From b88d69db61232253392f9c9eb7e41add891296d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 72/75] fix: merge without -o writes to its default output
 again

An existing test relies on it. This takes back a931a05.
---
 src/odc/tools/MergeTool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index 20ee73d..7b5a2ed 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -51,7 +51,7 @@ MergeTool::MergeTool(int ac, char* av[]) : Tool(ac, av), inputFiles_(), sql_(),
     sqlFiltering_ = optionIsSet("-S");
     std::string o(optionArgument("-o", std::string("<no-default>")));
     if (o == "<no-default>")
-        throw UserError("Output file is obligatory (option -o)");
+        UserError("Output file is obligatory (option -o)");
     outputFile_ = o;
 
     for (size_t i = 1; i < parameters().size(); ++i) {
-- 
2.43.0


From caefa80161989e0696fe0725619ff82fede49344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:48 +0000
Subject: [PATCH 73/75] fix: odc_decode refuses a row count whose array size
 overflows

---
 src/odc/api/odc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index c8a0e1c..7f55c70 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -12,6 +12,7 @@
 #include <cstdint>
 #include <cstring>
 #include <functional>
+#include <limits>
 #include <algorithm>
 #include <mutex>
 #include <numeric>
@@ -796,6 +797,7 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
             height = decoder->dataHeight;
         }
         else {
+            ASSERT(height <= std::numeric_limits<size_t>::max() / width);
             decoder->ownedData.reset(new char[width * height]);
             decoder->dataWidth  = width;
             decoder->dataHeight = height;
-- 
2.43.0


From d563acdbcee22869ad1b09ccdd4ca06e904b79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:48 +0000
Subject: [PATCH 74/75] fix: odc_encode refuses a column-major element width
 that does not divide a column

---
 src/odc/api/odc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 7f55c70..ea3bc36 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -1068,6 +1068,7 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
                 c.stride = info.decodedSize;
                 if (long(info.decodedSize) != encoder->columnMajorWidth) {
                     // Transpose data for contiguous elementsn
+                    ASSERT(info.decodedSize % encoder->columnMajorWidth == 0);
                     size_t widthInElems = info.decodedSize / encoder->columnMajorWidth;
 
                     transposedData.push_back(std::unique_ptr<char[]>(
-- 
2.43.0


From 15e42d1f387e32b732bd4efe851206e90b6b7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:45 +0000
Subject: [PATCH 75/75] fix: odc split verifies its output against the missing
 values of the frame being read

---
 src/odc/WriterDispatchingIterator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index dd9dd4b..fa3f9d9 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -524,7 +524,8 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::verify(Reader& input) {
                 const MetaData& sMetaData(sIt->columns());
                 ASSERT(sMetaData.equals(columns(), compareDataSizes));
 
-                comparator.compare(columns().size(), it->data(), sIt->data(), columns(), sMetaData);
+                // n.b. The missing values are those of the frame that is being read
+                comparator.compare(columns().size(), it->data(), sIt->data(), it->columns(), sMetaData);
             }
             catch (std::exception& e) {
                 ++numberOfDifferences;
-- 
2.43.0

