From 33d9b90fa2cd0150359e3e12aea2b107a03b188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 01/28] fix: record sink creation failures before releasing the
 waiting thread

The jobs counted the latch down first and touched the caller's
all_successful flag afterwards: the caller could miss the failure, and the
flag lives on the caller's stack, so it could already be gone.
---
 src/streaming/sink.creator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index d1343c2..c74d2f9 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -268,8 +268,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                  [dirname, &latch, &all_successful](std::string& err) -> bool {
                      if (dirname.empty()) {
                          err = "Directory name must not be empty.";
-                         latch.count_down();
                          all_successful.fetch_and(0);
+                         latch.count_down();
                          return false;
                      }
 
@@ -279,8 +279,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                      } else if (fs::exists(dirname)) {
                          err =
                            "'" + dirname + "' exists but is not a directory";
-                         latch.count_down();
                          all_successful.fetch_and(0);
+                         latch.count_down();
                          return false;
                      }
 
@@ -289,8 +289,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                          if (!fs::create_directories(dirname, ec)) {
                              err = "Failed to create directory '" + dirname +
                                    "': " + ec.message();
-                             latch.count_down();
                              all_successful.fetch_and(0);
+                             latch.count_down();
                              return false;
                          }
                      }
@@ -344,8 +344,8 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
@@ -395,8 +395,8 @@ zarr::SinkCreator::make_files_(
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
-- 
2.43.0


From a8cdfb226f3fee748a202e3c80284e38e2ab4734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 02/28] fix: reassemble frames that arrive in several appends

A frame completed from the frame buffer was written from the caller's
buffer instead (reading past its end), its bytes were counted twice, the
source pointer was not advanced, and it never reached the multiscale levels.
---
 src/streaming/zarr.stream.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 1f1f8cb..5d512f3 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -437,21 +437,23 @@ ZarrStream::append(const void* data_, size_t nbytes)
               std::min(bytes_of_frame - frame_buffer_offset_, bytes_remaining);
 
             memcpy(frame_buffer_.data() + frame_buffer_offset_,
-                   data + bytes_written,
+                   data,
                    bytes_to_copy);
             frame_buffer_offset_ += bytes_to_copy;
             bytes_written += bytes_to_copy;
+            data += bytes_to_copy;
 
             // ready to flush the frame buffer
             if (frame_buffer_offset_ == bytes_of_frame) {
                 const size_t bytes_written_this_frame =
-                  writers_[0]->write_frame({ data, bytes_of_frame });
+                  writers_[0]->write_frame(frame_buffer_);
                 if (bytes_written_this_frame == 0) {
                     break;
                 }
 
-                bytes_written += bytes_to_copy;
-                data += bytes_to_copy;
+                write_multiscale_frames_(frame_buffer_.data(),
+                                         bytes_written_this_frame);
+
                 frame_buffer_offset_ = 0;
             }
         } else if (bytes_remaining < bytes_of_frame) { // begin partial frame
-- 
2.43.0


From d3c8e9bf7d3adbdf41886997f118ae512f869d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 03/28] fix: complete open shards, array metadata and sinks on
 finalize

Finalizing did nothing when no frames were pending, so a V3 shard that was
still open never got its index, and an array that had not been rolled over
(or had no frames at all) got no metadata. When frames were pending but no
rollover was due, the sinks were dropped without being finalized, which
loses the data of S3 objects.
---
 src/streaming/array.writer.cpp        | 17 +++++++++--------
 src/streaming/zarrv3.array.writer.cpp |  7 ++++---
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 0c7fd21..53d70a7 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -395,20 +395,21 @@ zarr::ArrayWriter::compress_buffers_()
 void
 zarr::ArrayWriter::flush_()
 {
-    if (bytes_to_flush_ == 0) {
+    if (bytes_to_flush_ == 0 && !is_finalizing_) {
         return;
     }
 
     // compress buffers and write out
-    compress_buffers_();
-    CHECK(flush_impl_());
-
-    const auto should_rollover = should_rollover_();
-    if (should_rollover) {
-        rollover_();
+    if (bytes_to_flush_ > 0) {
+        compress_buffers_();
+        CHECK(flush_impl_());
+    } else if (!data_sinks_.empty()) { // complete sinks that are still open
+        CHECK(flush_impl_());
     }
 
-    if (should_rollover || is_finalizing_) {
+    // no sink outlives the writer
+    if (is_finalizing_ || should_rollover_()) {
+        rollover_();
         CHECK(write_array_metadata_());
     }
 
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index d687076..51c1bfe 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -82,9 +82,9 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
     const auto n_shards = config_.dimensions->number_of_shards();
     CHECK(data_sinks_.size() == n_shards);
 
-    // get shard indices for each chunk
+    // get shard indices for each chunk, if there is anything to write
     std::vector<std::vector<size_t>> chunk_in_shards(n_shards);
-    for (auto i = 0; i < chunk_buffers_.size(); ++i) {
+    for (auto i = 0; bytes_to_flush_ > 0 && i < chunk_buffers_.size(); ++i) {
         const auto index = config_.dimensions->shard_index_for_chunk(i);
         chunk_in_shards[index].push_back(i);
     }
@@ -104,7 +104,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        write_table,
                                        &latch,
                                        this](std::string& err) {
-            bool success = false;
+            bool success = true;
 
             try {
                 for (const auto& chunk_idx : chunks) {
@@ -133,6 +133,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                 }
             } catch (const std::exception& exc) {
                 err = "Failed to write chunk: " + std::string(exc.what());
+                success = false;
             }
 
             latch.count_down();
-- 
2.43.0


From 20d8cd360a19144a3ca25e9de968f500e99a0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 04/28] fix: index every chunk layer of a V3 shard

All chunk layers along the append dimension used the shard index entries of
the first layer, so with more than one layer per shard only the last layer
could be found and the others were lost.
---
 src/streaming/zarrv3.array.writer.cpp | 15 ++++++++++++++-
 src/streaming/zarrv3.array.writer.hh  |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 51c1bfe..bdeaf3b 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -89,6 +89,12 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
         chunk_in_shards[index].push_back(i);
     }
 
+    // chunk layers along the append dimension that are already in the shards
+    // precede this one in the shard index
+    const auto n_chunks_in_memory =
+      config_.dimensions->number_of_chunks_in_memory();
+    const auto chunk_index_offset = layers_in_shards_ * n_chunks_in_memory;
+
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
     std::latch latch(n_shards);
@@ -101,6 +107,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        &chunks,
                                        &chunk_table,
                                        file_offset,
+                                       chunk_index_offset,
                                        write_table,
                                        &latch,
                                        this](std::string& err) {
@@ -117,7 +124,8 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                     }
 
                     const auto internal_idx =
-                      config_.dimensions->shard_internal_index(chunk_idx);
+                      config_.dimensions->shard_internal_index(
+                        chunk_idx + chunk_index_offset);
                     chunk_table.at(2 * internal_idx) = *file_offset;
                     chunk_table.at(2 * internal_idx + 1) = chunk.size();
 
@@ -145,8 +153,13 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
+    if (bytes_to_flush_ > 0) {
+        ++layers_in_shards_;
+    }
+
     // reset shard tables and file offsets
     if (write_table) {
+        layers_in_shards_ = 0;
         for (auto& table : shard_tables_) {
             std::fill(
               table.begin(), table.end(), std::numeric_limits<uint64_t>::max());
diff --git a/src/streaming/zarrv3.array.writer.hh b/src/streaming/zarrv3.array.writer.hh
index 3ad1b05..6bc81f8 100644
--- a/src/streaming/zarrv3.array.writer.hh
+++ b/src/streaming/zarrv3.array.writer.hh
@@ -16,6 +16,7 @@ struct ZarrV3ArrayWriter : public ArrayWriter
   private:
     std::vector<size_t> shard_file_offsets_;
     std::vector<std::vector<uint64_t>> shard_tables_;
+    uint32_t layers_in_shards_{ 0 }; // chunk layers written to open shards
 
     ZarrVersion version_() const override { return ZarrVersion_3; }
     bool flush_impl_() override;
-- 
2.43.0


From da474a828fd0d09beac751547eda8366db9de551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 05/28] fix: report failed jobs from the append that ran them
 and keep the stream failed

---
 src/streaming/array.writer.cpp        | 33 ++++++++++++++++-------
 src/streaming/array.writer.hh         |  2 +-
 src/streaming/zarr.stream.cpp         | 38 ++++++++++++++++++++-------
 src/streaming/zarr.stream.hh          | 16 +++++++++++
 src/streaming/zarrv2.array.writer.cpp |  8 ++++--
 src/streaming/zarrv3.array.writer.cpp | 10 ++++++-
 6 files changed, 85 insertions(+), 22 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 53d70a7..e42c010 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -4,6 +4,7 @@
 #include "zarr.stream.hh"
 #include "sink.creator.hh"
 
+#include <atomic>
 #include <cmath>
 #include <functional>
 #include <latch>
@@ -336,11 +337,11 @@ zarr::ArrayWriter::should_flush_() const
     return frames_written_ % frames_before_flush == 0;
 }
 
-void
+bool
 zarr::ArrayWriter::compress_buffers_()
 {
     if (!config_.compression_params.has_value()) {
-        return;
+        return true;
     }
 
     LOG_DEBUG("Compressing");
@@ -348,11 +349,13 @@ zarr::ArrayWriter::compress_buffers_()
     BloscCompressionParams params = config_.compression_params.value();
     const auto bytes_per_px = bytes_of_type(config_.dtype);
 
+    std::atomic<char> all_successful = 1;
+
     std::scoped_lock lock(buffers_mutex_);
     std::latch latch(chunk_buffers_.size());
     for (auto& chunk : chunk_buffers_) {
         EXPECT(thread_pool_->push_job(
-                 [&params, buf = &chunk, bytes_per_px, &latch](
+                 [&params, buf = &chunk, bytes_per_px, &latch, &all_successful](
                    std::string& err) -> bool {
                      bool success = false;
                      const size_t bytes_of_chunk = buf->size();
@@ -381,6 +384,7 @@ zarr::ArrayWriter::compress_buffers_()
                          err = "Failed to compress chunk: " +
                                std::string(exc.what());
                      }
+                     all_successful.fetch_and((char)success);
                      latch.count_down();
 
                      return success;
@@ -390,6 +394,8 @@ zarr::ArrayWriter::compress_buffers_()
 
     // wait for all threads to finish
     latch.wait();
+
+    return (bool)all_successful;
 }
 
 void
@@ -401,8 +407,13 @@ zarr::ArrayWriter::flush_()
 
     // compress buffers and write out
     if (bytes_to_flush_ > 0) {
-        compress_buffers_();
-        CHECK(flush_impl_());
+        try {
+            CHECK(compress_buffers_());
+            CHECK(flush_impl_());
+        } catch (const std::exception&) {
+            bytes_to_flush_ = 0; // these buffers can't be written out again
+            throw;
+        }
     } else if (!data_sinks_.empty()) { // complete sinks that are still open
         CHECK(flush_impl_());
     }
@@ -423,12 +434,16 @@ zarr::ArrayWriter::flush_()
 void
 zarr::ArrayWriter::close_sinks_()
 {
-    for (auto i = 0; i < data_sinks_.size(); ++i) {
-        EXPECT(finalize_sink(std::move(data_sinks_[i])),
-               "Failed to finalize sink ",
-               i);
+    // a sink that fails doesn't keep us from finalizing the others
+    size_t n_failed = 0;
+    for (auto& sink : data_sinks_) {
+        if (!finalize_sink(std::move(sink))) {
+            ++n_failed;
+        }
     }
     data_sinks_.clear();
+
+    EXPECT(n_failed == 0, "Failed to finalize ", n_failed, " sinks");
 }
 
 void
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index 076b114..60236a1 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -90,7 +90,7 @@ class ArrayWriter
     virtual bool should_rollover_() const = 0;
 
     size_t write_frame_to_chunks_(std::span<const std::byte> data);
-    void compress_buffers_();
+    [[nodiscard]] bool compress_buffers_();
 
     void flush_();
     [[nodiscard]] virtual bool flush_impl_() = 0;
diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 5d512f3..9cb0173 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -393,10 +393,10 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
       zarr::bytes_of_frame(*dimensions_, static_cast<ZarrDataType>(dtype_)));
 
     // create the data store
-    EXPECT(create_store_(), error_);
+    EXPECT(create_store_(), get_error_());
 
     // allocate writers
-    EXPECT(create_writers_(), error_);
+    EXPECT(create_writers_(), get_error_());
 
     // allocate multiscale frame placeholders
     if (multiscale_) {
@@ -404,23 +404,35 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
     }
 
     // allocate metadata sinks
-    EXPECT(create_metadata_sinks_(), error_);
+    EXPECT(create_metadata_sinks_(), get_error_());
 
     // write base metadata
-    EXPECT(write_base_metadata_(), error_);
+    EXPECT(write_base_metadata_(), get_error_());
 
     // write group metadata
-    EXPECT(write_group_metadata_(), error_);
+    EXPECT(write_group_metadata_(), get_error_());
 
     // write external metadata
-    EXPECT(write_external_metadata_(), error_);
+    EXPECT(write_external_metadata_(), get_error_());
 }
 
 size_t
 ZarrStream::append(const void* data_, size_t nbytes)
 {
-    EXPECT(error_.empty(), "Cannot append data: ", error_.c_str());
+    const std::string error = get_error_();
+    EXPECT(error.empty(), "Cannot append data: ", error);
 
+    try {
+        return append_frames_(data_, nbytes);
+    } catch (const std::exception& exc) {
+        set_error_(exc.what()); // the stream can't go on from here
+        throw;
+    }
+}
+
+size_t
+ZarrStream_s::append_frames_(const void* data_, size_t nbytes)
+{
     if (0 == nbytes) {
         return 0;
     }
@@ -538,7 +550,15 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 void
 ZarrStream_s::set_error_(const std::string& msg)
 {
-    error_ = msg;
+    std::scoped_lock lock(error_mutex_);
+    error_ = msg.empty() ? "Unknown error" : msg;
+}
+
+std::string
+ZarrStream_s::get_error_() const
+{
+    std::scoped_lock lock(error_mutex_);
+    return error_;
 }
 
 bool
@@ -969,7 +989,7 @@ finalize_stream(struct ZarrStream_s* stream)
     }
 
     if (!stream->write_group_metadata_()) {
-        LOG_ERROR("Error finalizing Zarr stream: ", stream->error_);
+        LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
         return false;
     }
 
diff --git a/src/streaming/zarr.stream.hh b/src/streaming/zarr.stream.hh
index d359391..2979629 100644
--- a/src/streaming/zarr.stream.hh
+++ b/src/streaming/zarr.stream.hh
@@ -10,6 +10,7 @@
 
 #include <cstddef> // size_t
 #include <memory>  // unique_ptr
+#include <mutex>
 #include <optional>
 
 struct ZarrStream_s
@@ -40,6 +41,7 @@ struct ZarrStream_s
     };
 
     std::string error_; // error message. If nonempty, an error occurred.
+    mutable std::mutex error_mutex_; // workers report errors, too
 
     ZarrVersion version_;
     std::string store_path_;
@@ -77,6 +79,20 @@ struct ZarrStream_s
      */
     void set_error_(const std::string& msg);
 
+    /**
+     * @brief Get the current error message.
+     * @return The error message, or an empty string if no error occurred.
+     */
+    std::string get_error_() const;
+
+    /**
+     * @brief Split data into frames and write them.
+     * @param data The data to append.
+     * @param nbytes The number of bytes to append.
+     * @return The number of bytes appended.
+     */
+    size_t append_frames_(const void* data, size_t nbytes);
+
     /** @brief Create the data store. */
     [[nodiscard]] bool create_store_();
 
diff --git a/src/streaming/zarrv2.array.writer.cpp b/src/streaming/zarrv2.array.writer.cpp
index 8b620ca..f8d230b 100644
--- a/src/streaming/zarrv2.array.writer.cpp
+++ b/src/streaming/zarrv2.array.writer.cpp
@@ -5,6 +5,7 @@
 
 #include <nlohmann/json.hpp>
 
+#include <atomic>
 #include <latch>
 #include <stdexcept>
 
@@ -83,6 +84,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
 
     CHECK(data_sinks_.size() == chunk_buffers_.size());
 
+    std::atomic<char> all_successful = 1;
     std::latch latch(chunk_buffers_.size());
     {
         std::scoped_lock lock(buffers_mutex_);
@@ -92,7 +94,8 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                      std::move([&sink = data_sinks_.at(i),
                                 data_ = chunk.data(),
                                 size = chunk.size(),
-                                &latch](std::string& err) -> bool {
+                                &latch,
+                                &all_successful](std::string& err) -> bool {
                          bool success = false;
                          try {
                              std::span data{
@@ -105,6 +108,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                                    std::string(exc.what());
                          }
 
+                         all_successful.fetch_and((char)success);
                          latch.count_down();
                          return success;
                      })),
@@ -115,7 +119,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
-    return true;
+    return (bool)all_successful;
 }
 
 bool
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index bdeaf3b..7811a30 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -6,6 +6,7 @@
 #include <nlohmann/json.hpp>
 
 #include <algorithm> // std::fill
+#include <atomic>
 #include <latch>
 #include <stdexcept>
 
@@ -97,6 +98,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
 
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
+    std::atomic<char> all_successful = 1;
     std::latch latch(n_shards);
     for (auto i = 0; i < n_shards; ++i) {
         const auto& chunks = chunk_in_shards.at(i);
@@ -110,6 +112,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        chunk_index_offset,
                                        write_table,
                                        &latch,
+                                       &all_successful,
                                        this](std::string& err) {
             bool success = true;
 
@@ -144,6 +147,11 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                 success = false;
             }
 
+            if (!success && err.empty()) {
+                err = "Failed to write shard";
+            }
+
+            all_successful.fetch_and((char)success);
             latch.count_down();
             return success;
         }),
@@ -168,7 +176,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
         std::fill(shard_file_offsets_.begin(), shard_file_offsets_.end(), 0);
     }
 
-    return true;
+    return (bool)all_successful;
 }
 
 bool
-- 
2.43.0


From a55655b622a65af4bb1fa381d89e5126ef09a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 06/28] fix: report files that can't be opened or written

---
 src/streaming/file.sink.cpp    |  8 +++++---
 src/streaming/sink.creator.cpp | 13 +++++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/streaming/file.sink.cpp b/src/streaming/file.sink.cpp
index 312d90c..9b0489f 100644
--- a/src/streaming/file.sink.cpp
+++ b/src/streaming/file.sink.cpp
@@ -1,12 +1,14 @@
 #include "file.sink.hh"
+#include "macros.hh"
 
 #include <filesystem>
 
 namespace fs = std::filesystem;
 
 zarr::FileSink::FileSink(std::string_view filename)
-: file_(filename.data(), std::ios::binary | std::ios::trunc)
+: file_(std::string(filename), std::ios::binary | std::ios::trunc)
 {
+    EXPECT(file_.is_open(), "Failed to open file '", filename, "'");
 }
 
 bool
@@ -19,12 +21,12 @@ zarr::FileSink::write(size_t offset, std::span<const std::byte> data)
 
     file_.seekp(offset);
     file_.write(reinterpret_cast<const char*>(data.data()), bytes_of_buf);
-    return true;
+    return file_.good();
 }
 
 bool
 zarr::FileSink::flush_()
 {
     file_.flush();
-    return true;
+    return file_.good();
 }
diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index c74d2f9..e3e1502 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -42,7 +42,12 @@ zarr::SinkCreator::make_sink(std::string_view file_path)
         }
     }
 
-    return std::make_unique<FileSink>(file_path);
+    try {
+        return std::make_unique<FileSink>(file_path);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Failed to create file '", file_path, "': ", exc.what());
+        return nullptr;
+    }
 }
 
 std::unique_ptr<zarr::Sink>
@@ -115,7 +120,7 @@ zarr::SinkCreator::make_metadata_sinks(
     std::vector<std::string> file_paths =
       make_metadata_sink_paths_(version, base_path, true);
 
-    return make_files_(base_path.data(), file_paths, metadata_sinks);
+    return make_files_(std::string(base_path), file_paths, metadata_sinks);
 }
 
 bool
@@ -354,6 +359,10 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
 
     latch.wait();
 
+    if (!all_successful) {
+        sinks.clear(); // don't leave null sinks behind
+    }
+
     return (bool)all_successful;
 }
 
-- 
2.43.0


From 7bb0b4428739058db09eacd885f401cb1d79c817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 07/28] fix: don't let file system exceptions escape a
 directory job

---
 src/streaming/sink.creator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index e3e1502..c7d4fe5 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -278,10 +278,11 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                          return false;
                      }
 
-                     if (fs::is_directory(dirname)) {
+                     std::error_code ec; // an exception here would terminate
+                     if (fs::is_directory(dirname, ec)) {
                          latch.count_down();
                          return true;
-                     } else if (fs::exists(dirname)) {
+                     } else if (fs::exists(dirname, ec)) {
                          err =
                            "'" + dirname + "' exists but is not a directory";
                          all_successful.fetch_and(0);
@@ -290,7 +291,7 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                      }
 
                      if (all_successful) {
-                         std::error_code ec;
+                         ec.clear();
                          if (!fs::create_directories(dirname, ec)) {
                              err = "Failed to create directory '" + dirname +
                                    "': " + ec.message();
-- 
2.43.0


From 780db882ae38b2af2617b20b6f72d4b148238cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 08/28] fix: don't truncate the offset of a vectored write

---
 src/streaming/vectorized.file.writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/vectorized.file.writer.cpp b/src/streaming/vectorized.file.writer.cpp
index 18b57f8..52392cb 100644
--- a/src/streaming/vectorized.file.writer.cpp
+++ b/src/streaming/vectorized.file.writer.cpp
@@ -191,7 +191,7 @@ zarr::VectorizedFileWriter::write_vectors(
     ssize_t bytes_written = pwritev(fd_,
                                     iovecs.data(),
                                     static_cast<int>(iovecs.size()),
-                                    static_cast<int>(offset));
+                                    static_cast<off_t>(offset));
 
     if (bytes_written != total_bytes) {
         auto error = get_last_error_as_string();
-- 
2.43.0


From e5f07dca2697f706662f64ccaf2b598f1372556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 09/28] fix: don't compress when the settings ask for no
 compressor

---
 src/streaming/zarr.stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 9cb0173..7d4cf92 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -26,7 +26,8 @@ is_s3_acquisition(const struct ZarrStreamSettings_s* settings)
 bool
 is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
 {
-    return nullptr != settings->compression_settings;
+    return nullptr != settings->compression_settings &&
+           settings->compression_settings->compressor != ZarrCompressor_None;
 }
 
 [[nodiscard]] bool
@@ -224,7 +225,7 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         return false;
     }
 
-    if (is_compressed_acquisition(settings) &&
+    if (nullptr != settings->compression_settings &&
         !validate_compression_settings(settings->compression_settings)) {
         return false;
     }
-- 
2.43.0


From 2616514e2a8ed82c98606df76c36a8aaaae2f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 10/28] fix: reject null strings in S3 settings and dimension
 names

---
 src/streaming/zarr.stream.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 7d4cf92..4c26260 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -33,6 +33,13 @@ is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
 [[nodiscard]] bool
 validate_s3_settings(const ZarrS3Settings* settings)
 {
+    if (settings->endpoint == nullptr || settings->bucket_name == nullptr ||
+        settings->access_key_id == nullptr ||
+        settings->secret_access_key == nullptr) {
+        LOG_ERROR("Null pointer: S3 settings");
+        return false;
+    }
+
     if (zarr::is_empty_string(settings->endpoint, "S3 endpoint is empty")) {
         return false;
     }
@@ -160,6 +167,11 @@ validate_dimension(const ZarrDimensionProperties* dimension,
                    ZarrVersion version,
                    bool is_append)
 {
+    if (dimension->name == nullptr) {
+        LOG_ERROR("Null pointer: dimension name");
+        return false;
+    }
+
     if (zarr::is_empty_string(dimension->name, "Dimension name is empty")) {
         return false;
     }
-- 
2.43.0


From 80962e6ea55ad1a996809dffce7a471ec478889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 11/28] fix: stop downsampling when no array size changes any
 more

---
 src/streaming/array.writer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index e42c010..9fc3d17 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -63,6 +63,7 @@ zarr::downsample(const ArrayWriterConfig& config,
     downsampled_config.compression_params = config.compression_params;
 
     // can we downsample downsampled_config?
+    bool is_smaller = false;
     for (auto i = 0; i < config.dimensions->ndims(); ++i) {
         // downsampling made the chunk size strictly smaller
         const auto& dim = config.dimensions->at(i);
@@ -71,9 +72,12 @@ zarr::downsample(const ArrayWriterConfig& config,
         if (dim.chunk_size_px > downsampled_dim.chunk_size_px) {
             return false;
         }
+
+        is_smaller |= dim.array_size_px > downsampled_dim.array_size_px;
     }
 
-    return true;
+    // nothing left to downsample if all array sizes stayed the same
+    return is_smaller;
 }
 
 /// Writer
-- 
2.43.0


From a7671df0c46043559a610a26eb002171d2bd02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 12/28] fix: downsample pixels instead of the bytes they
 consist of

---
 src/streaming/zarr.stream.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 4c26260..59b91f6 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -321,9 +321,9 @@ scale_image(const std::byte* const src,
     const auto h_pad = static_cast<double>(height + (height % downscale));
 
     const auto size_downscaled =
-      static_cast<uint32_t>(w_pad * h_pad * factor * bytes_of_type);
+      static_cast<size_t>(w_pad * h_pad * factor * bytes_of_type);
 
-    auto* dst = new T[size_downscaled];
+    auto* dst = new T[size_downscaled / sizeof(T)];
     EXPECT(dst,
            "Failed to allocate ",
            size_downscaled,
@@ -331,6 +331,12 @@ scale_image(const std::byte* const src,
 
     memset(dst, 0, size_downscaled);
 
+    const auto pixel_at = [src](size_t idx) -> double {
+        T value; // src need not be aligned
+        memcpy(&value, src + idx * sizeof(T), sizeof(T));
+        return static_cast<double>(value);
+    };
+
     size_t dst_idx = 0;
     for (auto row = 0; row < height; row += downscale) {
         const bool pad_height = (row == height - 1 && height != h_pad);
@@ -339,14 +345,14 @@ scale_image(const std::byte* const src,
             size_t src_idx = row * width + col;
             const bool pad_width = (col == width - 1 && width != w_pad);
 
-            auto here = static_cast<double>(src[src_idx]);
-            auto right = static_cast<double>(
-              src[src_idx + (1 - static_cast<int>(pad_width))]);
-            auto down = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height))]);
-            auto diag = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height)) +
-                  (1 - static_cast<int>(pad_width))]);
+            auto here = pixel_at(src_idx);
+            auto right =
+              pixel_at(src_idx + (1 - static_cast<int>(pad_width)));
+            auto down =
+              pixel_at(src_idx + width * (1 - static_cast<int>(pad_height)));
+            auto diag =
+              pixel_at(src_idx + width * (1 - static_cast<int>(pad_height)) +
+                       (1 - static_cast<int>(pad_width)));
 
             dst[dst_idx++] =
               static_cast<T>(factor * (here + right + down + diag));
-- 
2.43.0


From c32c437f9b937efd511ee50a8308f023d5f2abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 13/28] fix: average frames without overflowing the pixel type

---
 src/streaming/zarr.stream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 59b91f6..6f5c6e2 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -385,7 +385,9 @@ average_two_frames(void* dst_,
 
     const auto num_pixels = bytes_of_src / sizeof(T);
     for (auto i = 0; i < num_pixels; ++i) {
-        dst[i] = static_cast<T>(0.5 * (dst[i] + src[i]));
+        // the sum of two pixels may not fit into their type
+        dst[i] = static_cast<T>(
+          0.5 * (static_cast<double>(dst[i]) + static_cast<double>(src[i])));
     }
 }
 } // namespace
-- 
2.43.0


From 413ae189007838502978a9c07d083e791735f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 14/28] fix: don't leak the frames of intermediate levels of
 detail

---
 src/streaming/zarr.stream.cpp | 48 +++++++++++++----------------------
 src/streaming/zarr.stream.hh  |  3 ++-
 2 files changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 6f5c6e2..e44d6d2 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -299,7 +299,7 @@ dimension_type_to_string(ZarrDimensionType type)
 }
 
 template<typename T>
-[[nodiscard]] std::byte*
+[[nodiscard]] std::vector<std::byte>
 scale_image(const std::byte* const src,
             size_t& bytes_of_src,
             size_t& width,
@@ -323,13 +323,8 @@ scale_image(const std::byte* const src,
     const auto size_downscaled =
       static_cast<size_t>(w_pad * h_pad * factor * bytes_of_type);
 
-    auto* dst = new T[size_downscaled / sizeof(T)];
-    EXPECT(dst,
-           "Failed to allocate ",
-           size_downscaled,
-           " bytes for destination frame");
-
-    memset(dst, 0, size_downscaled);
+    std::vector<std::byte> scaled_frame(size_downscaled);
+    auto* dst = reinterpret_cast<T*>(scaled_frame.data());
 
     const auto pixel_at = [src](size_t idx) -> double {
         T value; // src need not be aligned
@@ -363,7 +358,7 @@ scale_image(const std::byte* const src,
     width = static_cast<size_t>(w_pad) / 2;
     height = static_cast<size_t>(h_pad) / 2;
 
-    return reinterpret_cast<std::byte*>(dst);
+    return scaled_frame;
 }
 
 template<typename T>
@@ -917,7 +912,9 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
         return;
     }
 
-    std::function<std::byte*(const std::byte*, size_t&, size_t&, size_t&)> scale;
+    std::function<std::vector<std::byte>(
+      const std::byte*, size_t&, size_t&, size_t&)>
+      scale;
     std::function<void(void*, size_t, const void*, size_t)> average2;
 
     switch (dtype_) {
@@ -969,33 +966,30 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
     size_t frame_width = dimensions_->width_dim().array_size_px;
     size_t frame_height = dimensions_->height_dim().array_size_px;
 
-    std::byte* dst;
+    std::vector<std::byte> frame; // the frame that data points to
     for (auto i = 1; i < writers_.size(); ++i) {
-        dst = scale(data, bytes_of_data, frame_width, frame_height);
+        auto dst = scale(data, bytes_of_data, frame_width, frame_height);
 
         // bytes_of data is now downscaled
         // frame_width and frame_height are now the new dimensions
 
         if (scaled_frames_[i]) {
-            average2(dst, bytes_of_data, *scaled_frames_[i], bytes_of_data);
-            std::span frame_data{ reinterpret_cast<const std::byte*>(dst),
-                                  bytes_of_data };
-            EXPECT(writers_[i]->write_frame(frame_data),
-                   "Failed to write frame to writer %zu",
+            average2(dst.data(),
+                     bytes_of_data,
+                     scaled_frames_[i]->data(),
+                     bytes_of_data);
+            EXPECT(writers_[i]->write_frame(dst),
+                   "Failed to write frame to writer ",
                    i);
 
             // clean up this LOD
-            delete[] *scaled_frames_[i];
             scaled_frames_[i].reset();
 
             // set up for next iteration
-            if (i + 1 < writers_.size()) {
-                data = dst;
-            } else {
-                delete[] dst;
-            }
+            frame = std::move(dst);
+            data = frame.data();
         } else {
-            scaled_frames_[i] = dst;
+            scaled_frames_[i] = std::move(dst);
             break;
         }
     }
@@ -1033,11 +1027,5 @@ finalize_stream(struct ZarrStream_s* stream)
     stream->writers_.clear(); // flush before shutting down thread pool
     stream->thread_pool_->await_stop();
 
-    for (auto& [_, frame] : stream->scaled_frames_) {
-        if (frame) {
-            delete[] *frame;
-        }
-    }
-
     return true;
 }
diff --git a/src/streaming/zarr.stream.hh b/src/streaming/zarr.stream.hh
index 2979629..40d9383 100644
--- a/src/streaming/zarr.stream.hh
+++ b/src/streaming/zarr.stream.hh
@@ -62,7 +62,8 @@ struct ZarrStream_s
     std::unordered_map<std::string, std::unique_ptr<zarr::Sink>>
       metadata_sinks_;
 
-    std::unordered_map<size_t, std::optional<std::byte*>> scaled_frames_;
+    std::unordered_map<size_t, std::optional<std::vector<std::byte>>>
+      scaled_frames_;
 
     bool is_s3_acquisition_() const;
     bool is_compressed_acquisition_() const;
-- 
2.43.0


From 3531a7c653ed4e97bdbc60783696c1800a2b213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 15/28] fix: return the S3 connection when a multipart request
 fails

---
 src/streaming/s3.sink.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 81150ab..f70a065 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -128,13 +128,20 @@ zarr::S3Sink::is_multipart_upload_() const
 void
 zarr::S3Sink::create_multipart_upload_()
 {
-    multipart_upload_ = MultiPartUpload{};
-
     auto connection = connection_pool_->get_connection();
-    multipart_upload_->upload_id =
-      connection->create_multipart_object(bucket_name_, object_key_);
+
+    std::string upload_id;
+    try {
+        upload_id =
+          connection->create_multipart_object(bucket_name_, object_key_);
+    } catch (const std::exception&) {
+        connection_pool_->return_connection(std::move(connection));
+        throw;
+    }
 
     connection_pool_->return_connection(std::move(connection));
+
+    multipart_upload_ = MultiPartUpload{ .upload_id = upload_id };
 }
 
 bool
@@ -194,8 +201,13 @@ zarr::S3Sink::finalize_multipart_upload_()
     const auto& upload_id = multipart_upload_->upload_id;
     const auto& parts = multipart_upload_->parts;
 
-    bool retval = connection->complete_multipart_object(
-      bucket_name_, object_key_, upload_id, parts);
+    bool retval = false;
+    try {
+        retval = connection->complete_multipart_object(
+          bucket_name_, object_key_, upload_id, parts);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
 
     connection_pool_->return_connection(std::move(connection));
 
-- 
2.43.0


From 74a1f6a74d26453cdfd2169535a3b31558e9f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 16/28] fix: never complete an S3 object with a part missing

---
 src/streaming/s3.sink.cpp | 13 +++++++++++++
 src/streaming/s3.sink.hh  |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index f70a065..bae420b 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -22,6 +22,11 @@ zarr::S3Sink::S3Sink(std::string_view bucket_name,
 bool
 zarr::S3Sink::flush_()
 {
+    if (has_failed_) {
+        LOG_ERROR("Not completing object ", object_key_, " after a failure");
+        return false;
+    }
+
     if (is_multipart_upload_()) {
         const auto& parts = multipart_upload_->parts;
         if (nbytes_buffered_ > 0 && !flush_part_()) {
@@ -56,6 +61,11 @@ zarr::S3Sink::write(size_t offset, std::span<const std::byte> data)
         return true;
     }
 
+    if (has_failed_) {
+        LOG_ERROR("Cannot write to object ", object_key_, " after a failure");
+        return false;
+    }
+
     if (offset < nbytes_flushed_) {
         LOG_ERROR("Cannot write data at offset ",
                   offset,
@@ -151,6 +161,8 @@ zarr::S3Sink::flush_part_()
         return false;
     }
 
+    has_failed_ = true; // until the part is uploaded
+
     if (!is_multipart_upload_()) {
         create_multipart_upload_();
     }
@@ -181,6 +193,7 @@ zarr::S3Sink::flush_part_()
         parts.push_back(part);
 
         retval = true;
+        has_failed_ = false;
     } catch (const std::exception& exc) {
         LOG_ERROR("Error: ", exc.what());
     }
diff --git a/src/streaming/s3.sink.hh b/src/streaming/s3.sink.hh
index 49d2219..c504084 100644
--- a/src/streaming/s3.sink.hh
+++ b/src/streaming/s3.sink.hh
@@ -38,6 +38,7 @@ class S3Sink : public Sink
     std::array<std::byte, max_part_size_> part_buffer_;
     size_t nbytes_buffered_{ 0 };
     size_t nbytes_flushed_{ 0 };
+    bool has_failed_{ false }; // a part is missing, the object can't be completed
 
     std::optional<MultiPartUpload> multipart_upload_;
 
-- 
2.43.0


From 49e23bed30bbb2b9af2929b71753c6aa7c2150bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 17/28] fix: don't overflow 32 bits in frame, chunk and shard
 arithmetic

---
 src/streaming/array.writer.cpp        | 10 +++++-----
 src/streaming/zarr.common.cpp         |  5 +++--
 src/streaming/zarr.dimension.cpp      |  5 ++---
 src/streaming/zarrv3.array.writer.cpp |  3 ++-
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 9fc3d17..e6f048d 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -27,7 +27,7 @@ zarr::downsample(const ArrayWriterConfig& config,
             downsampled_dims[i] = dim;
         } else {
             const uint32_t array_size_px =
-              (dim.array_size_px + (dim.array_size_px % 2)) / 2;
+              dim.array_size_px / 2 + dim.array_size_px % 2;
 
             const uint32_t chunk_size_px =
               dim.array_size_px == 0
@@ -256,12 +256,12 @@ zarr::ArrayWriter::write_frame_to_chunks_(std::span<const std::byte> data)
     const auto& dimensions = config_.dimensions;
 
     const auto& x_dim = dimensions->width_dim();
-    const auto frame_cols = x_dim.array_size_px;
-    const auto tile_cols = x_dim.chunk_size_px;
+    const size_t frame_cols = x_dim.array_size_px;
+    const size_t tile_cols = x_dim.chunk_size_px;
 
     const auto& y_dim = dimensions->height_dim();
-    const auto frame_rows = y_dim.array_size_px;
-    const auto tile_rows = y_dim.chunk_size_px;
+    const size_t frame_rows = y_dim.array_size_px;
+    const size_t tile_rows = y_dim.chunk_size_px;
 
     if (tile_cols == 0 || tile_rows == 0) {
         return 0;
diff --git a/src/streaming/zarr.common.cpp b/src/streaming/zarr.common.cpp
index f70fde0..c3d85f7 100644
--- a/src/streaming/zarr.common.cpp
+++ b/src/streaming/zarr.common.cpp
@@ -76,7 +76,8 @@ zarr::chunks_along_dimension(const ZarrDimension& dimension)
 {
     EXPECT(dimension.chunk_size_px > 0, "Invalid chunk size.");
 
-    return (dimension.array_size_px + dimension.chunk_size_px - 1) /
+    const size_t array_size_px = dimension.array_size_px;
+    return (array_size_px + dimension.chunk_size_px - 1) /
            dimension.chunk_size_px;
 }
 
@@ -87,7 +88,7 @@ zarr::shards_along_dimension(const ZarrDimension& dimension)
         return 0;
     }
 
-    const auto shard_size = dimension.shard_size_chunks;
+    const size_t shard_size = dimension.shard_size_chunks;
     const auto n_chunks = chunks_along_dimension(dimension);
     return (n_chunks + shard_size - 1) / shard_size;
 }
diff --git a/src/streaming/zarr.dimension.cpp b/src/streaming/zarr.dimension.cpp
index 4629f70..5049bdc 100644
--- a/src/streaming/zarr.dimension.cpp
+++ b/src/streaming/zarr.dimension.cpp
@@ -49,7 +49,7 @@ ArrayDimensions::chunk_lattice_index(uint64_t frame_id,
 
     // the first dimension is a special case
     if (dim_index == 0) {
-        auto divisor = dims_.front().chunk_size_px;
+        size_t divisor = dims_.front().chunk_size_px;
         for (auto i = 1; i < ndims() - 2; ++i) {
             const auto& dim = dims_[i];
             divisor *= dim.array_size_px;
@@ -78,8 +78,7 @@ ArrayDimensions::tile_group_offset(uint64_t frame_id) const
     std::vector<size_t> strides(dims_.size(), 1);
     for (auto i = dims_.size() - 1; i > 0; --i) {
         const auto& dim = dims_[i];
-        const auto a = dim.array_size_px, c = dim.chunk_size_px;
-        strides[i - 1] = strides[i] * ((a + c - 1) / c);
+        strides[i - 1] = strides[i] * zarr::chunks_along_dimension(dim);
     }
 
     size_t offset = 0;
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 7811a30..960fb27 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -266,7 +266,8 @@ zarr::ZarrV3ArrayWriter::should_rollover_() const
     const auto& dims = config_.dimensions;
     const auto& append_dim = dims->final_dim();
     size_t frames_before_flush =
-      append_dim.chunk_size_px * append_dim.shard_size_chunks;
+      static_cast<size_t>(append_dim.chunk_size_px) *
+      append_dim.shard_size_chunks;
     for (auto i = 1; i < dims->ndims() - 2; ++i) {
         frames_before_flush *= dims->at(i).array_size_px;
     }
-- 
2.43.0


From 674f6e8f7e6421b7fd3385a47f44bfb7b956663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 18/28] fix: free a stream and finalize all of it after a
 failure

---
 src/streaming/acquire.zarr.cpp |  8 ++++++--
 src/streaming/array.writer.cpp |  8 +++++---
 src/streaming/zarr.stream.cpp  | 20 ++++++++++++++------
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/streaming/acquire.zarr.cpp b/src/streaming/acquire.zarr.cpp
index 3e9b183..94e9af1 100644
--- a/src/streaming/acquire.zarr.cpp
+++ b/src/streaming/acquire.zarr.cpp
@@ -151,8 +151,12 @@ extern "C"
 
     void ZarrStream_destroy(struct ZarrStream_s* stream)
     {
-        if (!finalize_stream(stream)) {
-            return;
+        try {
+            if (!finalize_stream(stream)) {
+                LOG_ERROR("Zarr stream was not completed");
+            }
+        } catch (const std::exception& e) {
+            LOG_ERROR("Error finalizing Zarr stream: ", e.what());
         }
 
         delete stream;
diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index e6f048d..32822b7 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -467,19 +467,21 @@ zarr::finalize_array(std::unique_ptr<ArrayWriter>&& writer)
         return true;
     }
 
+    bool success = true;
+
     writer->is_finalizing_ = true;
     try {
         writer->flush_(); // data sinks finalized here
     } catch (const std::exception& exc) {
         LOG_ERROR("Failed to finalize array writer: ", exc.what());
-        return false;
+        success = false;
     }
 
     if (!finalize_sink(std::move(writer->metadata_sink_))) {
         LOG_ERROR("Failed to finalize metadata sink");
-        return false;
+        success = false;
     }
 
     writer.reset();
-    return true;
+    return success;
 }
diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index e44d6d2..4d2908e 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -1003,16 +1003,24 @@ finalize_stream(struct ZarrStream_s* stream)
         return true;
     }
 
-    if (!stream->write_group_metadata_()) {
-        LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
-        return false;
+    // a failure doesn't keep us from finalizing the rest
+    bool success = true;
+
+    try {
+        if (!stream->write_group_metadata_()) {
+            LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
+            success = false;
+        }
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error finalizing Zarr stream: ", exc.what());
+        success = false;
     }
 
     for (auto& [sink_name, sink] : stream->metadata_sinks_) {
         if (!finalize_sink(std::move(sink))) {
             LOG_ERROR("Error finalizing Zarr stream. Failed to write ",
                       sink_name);
-            return false;
+            success = false;
         }
     }
     stream->metadata_sinks_.clear();
@@ -1021,11 +1029,11 @@ finalize_stream(struct ZarrStream_s* stream)
         if (!finalize_array(std::move(stream->writers_[i]))) {
             LOG_ERROR("Error finalizing Zarr stream. Failed to write array ",
                       i);
-            return false;
+            success = false;
         }
     }
     stream->writers_.clear(); // flush before shutting down thread pool
     stream->thread_pool_->await_stop();
 
-    return true;
+    return success;
 }
-- 
2.43.0


From adcbe108672d69b663175976751b65b7edf6deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 19/28] fix: never leave an empty metadata file

---
 src/streaming/zarr.stream.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 4d2908e..815de4a 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -522,7 +522,7 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 {
     version_ = settings->version;
     store_path_ = zarr::trim(settings->store_path);
-    if (settings->custom_metadata) {
+    if (settings->custom_metadata && *settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
     } else {
         custom_metadata_ = "{}";
@@ -760,6 +760,19 @@ ZarrStream_s::write_base_metadata_()
         return false;
     }
 
+    if (version_ == 2) { // the first array has no attributes of its own
+        const std::string attrs_str = nlohmann::json::object().dump();
+        data = { reinterpret_cast<const std::byte*>(attrs_str.data()),
+                 attrs_str.size() };
+
+        const std::unique_ptr<zarr::Sink>& attrs_sink =
+          metadata_sinks_.at("0/.zattrs");
+        if (!attrs_sink || !attrs_sink->write(0, data)) {
+            set_error_("Error writing array attributes");
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 62a477c0a4f515b92a2236a2542306d30562f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 20/28] fix: reject dimension names that can't be stored as
 JSON

---
 src/streaming/zarr.stream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 815de4a..ee38e37 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -176,6 +176,14 @@ validate_dimension(const ZarrDimensionProperties* dimension,
         return false;
     }
 
+    // the name becomes part of the metadata
+    try {
+        (void)nlohmann::json(dimension->name).dump();
+    } catch (const nlohmann::json::exception& exc) {
+        LOG_ERROR("Invalid dimension name: ", exc.what());
+        return false;
+    }
+
     if (dimension->type >= ZarrDimensionTypeCount) {
         LOG_ERROR("Invalid dimension type: ", dimension->type);
         return false;
-- 
2.43.0


From e165b8574d00944e5246a7ad875b07d049a4b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 21/28] fix: make changing the log level while logging free of
 data races

---
 src/logger/logger.cpp | 2 +-
 src/logger/logger.hh  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logger/logger.cpp b/src/logger/logger.cpp
index 4f7b291..45ffba4 100644
--- a/src/logger/logger.cpp
+++ b/src/logger/logger.cpp
@@ -4,7 +4,7 @@
 #include <string>
 #include <thread>
 
-LogLevel Logger::current_level_ = LogLevel_Info;
+std::atomic<LogLevel> Logger::current_level_{ LogLevel_Info };
 std::mutex Logger::log_mutex_{};
 
 void
diff --git a/src/logger/logger.hh b/src/logger/logger.hh
index 4efaaf0..33d9546 100644
--- a/src/logger/logger.hh
+++ b/src/logger/logger.hh
@@ -1,5 +1,6 @@
 #include "logger.types.h"
 
+#include <atomic>
 #include <filesystem>
 #include <iostream>
 #include <mutex>
@@ -61,7 +62,7 @@ class Logger
     }
 
   private:
-    static LogLevel current_level_;
+    static std::atomic<LogLevel> current_level_;
     static std::mutex log_mutex_;
 
     static void format_arg_(std::ostream& ss) {}; // base case
-- 
2.43.0


From 9a4a0280faca999af9522f25c8673db786dc3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 22/28] fix: reject negative enumerators in stream settings

---
 src/streaming/zarr.stream.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index ee38e37..ef85bd1 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -30,6 +30,16 @@ is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
            settings->compression_settings->compressor != ZarrCompressor_None;
 }
 
+/// @brief Check that @p value is one of the enumerators below @p count.
+/// @details The caller may have stored any integer, including a negative one.
+template<typename T>
+[[nodiscard]] bool
+is_enumerator(T value, T count)
+{
+    const auto v = static_cast<long long>(value);
+    return v >= 0 && v < static_cast<long long>(count);
+}
+
 [[nodiscard]] bool
 validate_s3_settings(const ZarrS3Settings* settings)
 {
@@ -98,12 +108,12 @@ validate_filesystem_store_path(std::string_view data_root)
 [[nodiscard]] bool
 validate_compression_settings(const ZarrCompressionSettings* settings)
 {
-    if (settings->compressor >= ZarrCompressorCount) {
+    if (!is_enumerator(settings->compressor, ZarrCompressorCount)) {
         LOG_ERROR("Invalid compressor: ", settings->compressor);
         return false;
     }
 
-    if (settings->codec >= ZarrCompressionCodecCount) {
+    if (!is_enumerator(settings->codec, ZarrCompressionCodecCount)) {
         LOG_ERROR("Invalid compression codec: ", settings->codec);
         return false;
     }
@@ -184,7 +194,7 @@ validate_dimension(const ZarrDimensionProperties* dimension,
         return false;
     }
 
-    if (dimension->type >= ZarrDimensionTypeCount) {
+    if (!is_enumerator(dimension->type, ZarrDimensionTypeCount)) {
         LOG_ERROR("Invalid dimension type: ", dimension->type);
         return false;
     }
@@ -240,7 +250,7 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         return false;
     }
 
-    if (settings->data_type >= ZarrDataTypeCount) {
+    if (!is_enumerator(settings->data_type, ZarrDataTypeCount)) {
         LOG_ERROR("Invalid data type: ", settings->data_type);
         return false;
     }
-- 
2.43.0


From f7735e307b69bfad3cc0ea3d65745ded1d8bd841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 23/28] fix: don't write the same buffers again after
 completing sinks has failed

---
 src/streaming/array.writer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 32822b7..377e9fc 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -418,6 +418,7 @@ zarr::ArrayWriter::flush_()
             bytes_to_flush_ = 0; // these buffers can't be written out again
             throw;
         }
+        bytes_to_flush_ = 0; // even if completing the sinks fails below
     } else if (!data_sinks_.empty()) { // complete sinks that are still open
         CHECK(flush_impl_());
     }
@@ -430,9 +431,6 @@ zarr::ArrayWriter::flush_()
 
     // reset buffers
     make_buffers_();
-
-    // reset state
-    bytes_to_flush_ = 0;
 }
 
 void
-- 
2.43.0


From 762410a80e099517b1963f072d6367f772c34f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:13 +0000
Subject: [PATCH 24/28] fix: resolve a relative store path when the stream is
 created

---
 src/streaming/zarr.stream.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index ef85bd1..6e5e861 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -620,6 +620,16 @@ ZarrStream_s::create_store_()
         }
         s3_connection_pool_->return_connection(std::move(conn));
     } else {
+        // the working directory may change while we are streaming
+        {
+            std::error_code ec;
+            store_path_ = fs::absolute(store_path_, ec).string();
+            if (ec) {
+                set_error_("Failed to resolve store path: " + ec.message());
+                return false;
+            }
+        }
+
         if (fs::exists(store_path_)) {
             // remove everything inside the store path
             std::error_code ec;
-- 
2.43.0


From 72f993c2c02e1d199c452f7f6657175361aeba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:30 +0000
Subject: [PATCH 25/28] fix: don't terminate the process when chunk buffers
 can't be allocated

---
 src/streaming/array.writer.cpp | 2 +-
 src/streaming/array.writer.hh  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 377e9fc..222c326 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -232,7 +232,7 @@ zarr::ArrayWriter::make_metadata_sink_()
 }
 
 void
-zarr::ArrayWriter::make_buffers_() noexcept
+zarr::ArrayWriter::make_buffers_()
 {
     LOG_DEBUG("Creating chunk buffers");
 
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index 60236a1..e9645b1 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -84,7 +84,7 @@ class ArrayWriter
 
     [[nodiscard]] bool make_data_sinks_();
     [[nodiscard]] bool make_metadata_sink_();
-    void make_buffers_() noexcept;
+    void make_buffers_();
 
     bool should_flush_() const;
     virtual bool should_rollover_() const = 0;
-- 
2.43.0


From 62f814243f3202f496f6bd9df95c9dfa03ab9ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:30 +0000
Subject: [PATCH 26/28] fix: keep no null sinks when creating S3 sinks runs out
 of memory

---
 src/streaming/sink.creator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index c7d4fe5..afa9885 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -451,12 +451,13 @@ zarr::SinkCreator::make_s3_objects_(std::string_view bucket_name,
     }
 
     const auto n_objects = object_keys.size();
-    sinks.resize(n_objects);
+    std::vector<std::unique_ptr<Sink>> new_sinks(n_objects);
     for (auto i = 0; i < n_objects; ++i) {
-        sinks[i] = std::make_unique<S3Sink>(
+        new_sinks[i] = std::make_unique<S3Sink>(
           bucket_name, object_keys.front(), connection_pool_);
         object_keys.pop();
     }
+    sinks = std::move(new_sinks); // all of them or none
 
     return true;
 }
-- 
2.43.0


From 03dc60e28edc849aa5626042990c60a7ee35ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:30 +0000
Subject: [PATCH 27/28] fix: join the threads already started when starting
 another one fails

---
 src/streaming/thread.pool.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/streaming/thread.pool.cpp b/src/streaming/thread.pool.cpp
index aede31d..dac5643 100644
--- a/src/streaming/thread.pool.cpp
+++ b/src/streaming/thread.pool.cpp
@@ -8,8 +8,13 @@ zarr::ThreadPool::ThreadPool(unsigned int n_threads, ErrorCallback&& err)
     const auto max_threads = std::max(std::thread::hardware_concurrency(), 1u);
     n_threads = std::clamp(n_threads, 1u, max_threads);
 
-    for (auto i = 0; i < n_threads; ++i) {
-        threads_.emplace_back([this] { process_tasks_(); });
+    try {
+        for (auto i = 0; i < n_threads; ++i) {
+            threads_.emplace_back([this] { process_tasks_(); });
+        }
+    } catch (const std::exception&) {
+        await_stop(); // no thread may outlive the pool
+        throw;
     }
 }
 
-- 
2.43.0


From 916972d4b61ae006293bfc443b55a0608494e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:30 +0000
Subject: [PATCH 28/28] fix: store the elements of any NumPy array in row-major
 order

---
 python/acquire-zarr-py.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/acquire-zarr-py.cpp b/python/acquire-zarr-py.cpp
index f50d7e0..485bec1 100644
--- a/python/acquire-zarr-py.cpp
+++ b/python/acquire-zarr-py.cpp
@@ -376,7 +376,15 @@ class PyZarrStream
             throw py::error_already_set();
         }
 
-        auto buf = image_data.request();
+        // the stream expects the elements in row-major order
+        auto contiguous = py::array::ensure(image_data, py::array::c_style);
+        if (!contiguous) {
+            PyErr_SetString(PyExc_RuntimeError,
+                            "Failed to make the array contiguous.");
+            throw py::error_already_set();
+        }
+
+        auto buf = contiguous.request();
         auto* ptr = (uint8_t*)buf.ptr;
 
         size_t bytes_out;
-- 
2.43.0

