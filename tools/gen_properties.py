#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, run, commit both."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
S = "src/streaming/"

prop("C01", "The store does not depend on how the pixel bytes are split over appends",
 "For any way of cutting a byte sequence into successive appends (including empty appends, single bytes, pieces that end inside a frame and pieces spanning several frames), every append succeeds and reports exactly the number of bytes it was given, and the finished store is identical to the one obtained by appending whole frames one by one. Bytes after the last complete frame do not become visible in the store.",
 ["inputs", "histories"],
 "every composition of the byte sequence into appends, for every stream configuration (format version, dimensions, compression, multiscale, filesystem or S3)",
 "The integration tests append exactly one whole frame per call; no test ever passes a partial frame or several frames in one call.",
 [S+"zarr.stream.cpp", S+"acquire.zarr.cpp"],
 [("frame buffer and its offset reassemble frames from partial appends", "zarr.stream.cpp:append"), ("bytes_out", "acquire.zarr.cpp:ZarrStream_append")],
 ["ZarrStream_append status and bytes_out", "files/objects of the finished store"])

prop("C02", "A finished Zarr V2 store reads back exactly what was appended",
 "For every accepted V2 configuration (3 or more dimensions, any array and chunk sizes including ragged ones, any data type, compressed or not) and every number of complete frames, an independent reader that follows the Zarr V2 layout recovers every appended frame bit for bit at its position in the array. The array's recorded extent along the append dimension is exactly what the frames written require, every chunk that the shape implies is present and decodes to exactly one full chunk, and every element not covered by a frame is zero.",
 ["configurations", "inputs", "histories"],
 "all dimension/array/chunk size combinations, data types, codecs, levels, shuffles, and frame counts",
 "The writer tests check file names and file sizes for three fixed shapes and never read pixel values back; the integration tests compare sizes only.",
 [S+"array.writer.cpp", S+"zarrv2.array.writer.cpp", S+"zarr.dimension.cpp", S+"sink.creator.cpp", S+"zarr.stream.cpp"],
 [("frame is cut into tiles and copied to chunk buffers", "array.writer.cpp:write_frame_to_chunks_"), ("chunk buffers are flushed and re-zeroed at chunk boundaries and on finalize", "array.writer.cpp:flush_"), ("one file per chunk", "zarrv2.array.writer.cpp:flush_impl_")],
 ["<store>/<level>/.zarray", "<store>/<level>/<t>/.../<x>"])

prop("C03", "A finished Zarr V3 store reads back exactly what was appended",
 "For every accepted V3 configuration (3 or more dimensions, any array, chunk and shard sizes including ragged ones and shards spanning several chunks along the append dimension, any data type, compressed or not) and every number of complete frames, an independent reader that locates each chunk only through the index at the end of its shard recovers every appended frame bit for bit. The recorded extent along the append dimension is exactly what the frames require; every shard ends with an index with one entry per chunk slot, in which every chunk that was written has a non-overlapping in-range extent decoding to exactly one full chunk, and every other slot is marked missing; elements not covered by a frame are zero or missing.",
 ["configurations", "inputs", "histories"],
 "all dimension/array/chunk/shard size combinations, data types, codecs, and frame counts",
 "The tests check shard file sizes for three fixed shapes with one chunk layer per shard; the shard index is never parsed.",
 [S+"zarrv3.array.writer.cpp", S+"array.writer.cpp", S+"zarr.dimension.cpp", S+"sink.creator.cpp"],
 [("shard table entries and running file offset", "zarrv3.array.writer.cpp:flush_impl_"), ("index appended when a shard closes", "zarrv3.array.writer.cpp:flush_impl_"), ("chunk -> shard / slot arithmetic", "zarr.dimension.cpp")],
 ["<store>/meta/root/<level>.array.json", "<store>/data/root/<level>/c<t>/.../<x>"])

prop("C04", "Every metadata document is valid JSON and describes the store truthfully",
 "Every metadata file of a finished store is a valid JSON document; the array metadata states the configured shape, chunk and shard sizes, data type, fill value and compressor (or none) of the data actually stored; the group metadata lists the axes in order with their names and types, and every dataset it lists exists with its own array metadata. The user's custom metadata is stored as a JSON-equal document, and no other files than those the format prescribes are present.",
 ["configurations", "inputs"],
 "all accepted settings (names needing escapes, all dimension types, custom metadata of any JSON shape or none, any number of frames including zero, multiscale or not)",
 "The integration tests look at selected fields of one fixed configuration; zero frames, unusual names and higher pyramid levels are never inspected.",
 [S+"zarr.stream.cpp", S+"zarrv2.array.writer.cpp", S+"zarrv3.array.writer.cpp"],
 [("group/base/external metadata documents", "zarr.stream.cpp:write_*_metadata_"), ("array metadata on rollover and finalize", "zarrv{2,3}.array.writer.cpp:write_array_metadata_")],
 ["the JSON files of the store"])

prop("C05", "Each pyramid level is the 2x2x2 mean of the level below it",
 "In a multiscale stream, every pixel of frame k of level L+1 is the mean of frames 2k and 2k+1 of level L, each first averaged over its 2x2 pixel block (edge pixels replicated where the size is odd), with each of the two averages truncated toward zero for integer types; frames without a partner are not emitted. This holds at every level for every data type over its value range (64-bit integers: magnitudes up to 2^50; floats: whenever the sums are exact), and level 0 is what it would be without multiscale. Frames are paired in the order in which they are appended, also where dimensions between the first and the last two are present.",
 ["inputs", "configurations"],
 "all data types, pixel values (integers exactly representable in a double), odd and even frame sizes, numbers of frames, numbers of levels",
 "No test reads a pixel of a downsampled level; only the level count and metadata of one configuration are looked at.",
 [S+"zarr.stream.cpp", S+"array.writer.cpp"],
 [("2x2 block mean with edge padding", "zarr.stream.cpp:scale_image"), ("pairwise frame mean", "zarr.stream.cpp:average_two_frames"), ("pending frame per level", "zarr.stream.cpp:write_multiscale_frames_")],
 ["arrays 1..n of the finished store"])

prop("C06", "An S3 store holds exactly the objects a filesystem store would hold",
 "For the same settings and the same appended data, streaming to S3 leaves under the store prefix exactly one object for every non-empty file that streaming to the filesystem produces, with byte-identical content, and nothing else in the bucket changes.",
 ["configurations", "inputs", "histories"],
 "all stream configurations, frame counts and append splits, including objects larger than one upload part",
 "The S3 tests need a live server and are skipped without one; each covers a single configuration with small objects and checks sizes only.",
 [S+"s3.sink.cpp", S+"sink.creator.cpp", S+"zarr.stream.cpp", S+"array.writer.cpp"],
 [("same writers over S3Sink", "sink.creator.cpp:make_s3_objects_"), ("sinks flushed on rollover and finalize", "array.writer.cpp:close_sinks_")],
 ["objects on the server after destroy"])

prop("C07", "Sequential writes to an S3 object are uploaded completely and legally",
 "For any sequence of contiguous writes to an S3 sink followed by finalization, the stored object equals the concatenation of the writes. Objects smaller than the part size go up as one request and larger ones as one multipart upload whose parts are numbered consecutively from 1, are all at least 5 MiB except the last, and are completed exactly once with the tags the server returned; a write below data already uploaded is refused.",
 ["histories", "inputs"],
 "all sequences of write sizes around the part-size boundaries, and offsets",
 "Tests against a live server write one object below and one above the part size.",
 [S+"s3.sink.cpp", S+"s3.connection.cpp"],
 [("part buffer, nbytes_buffered_/nbytes_flushed_", "s3.sink.cpp:write"), ("create/upload/complete multipart", "s3.sink.cpp:flush_part_, finalize_multipart_upload_")],
 ["requests seen by the server"])

prop("C08", "A pooled S3 connection is lent to one user at a time and never lost",
 "Under every thread schedule, at any moment each pooled S3 connection is lent to at most one borrower, a request for a connection waits only while all are lent out and is granted once one is given back, and when all borrowers have returned theirs the pool holds exactly the connections it started with. No schedule deadlocks, and uploads by concurrent users never interleave on one connection.",
 ["schedules"],
 "all interleavings of threads borrowing, using and returning connections, with fewer connections than threads",
 "No test uses the pool from two threads; interleavings are chosen by the operating system.",
 [S+"s3.connection.cpp", S+"s3.connection.hh", S+"s3.sink.cpp"],
 [("connections_mutex_ and cv_", "s3.connection.cpp:get_connection/return_connection")],
 ["S3ConnectionPool::get_connection / return_connection"])

prop("C09", "The thread pool runs every accepted job exactly once and always stops",
 "Under every thread schedule, each job accepted by the pool before shutdown is requested runs exactly once and has completed when the shutdown call returns; jobs offered after that are refused; the error callback is called exactly once with the job's message for each failing job. Shutdown and destruction terminate under every schedule (destruction may drop jobs not yet started), and the pool never runs more jobs at once than it has threads.",
 ["schedules"],
 "all interleavings of producers, workers and shutdown, for every number of workers/jobs within bounds, including spurious wake-ups",
 "The single test pushes one job and waits for it; it sees one schedule per run.",
 [S+"thread.pool.cpp", S+"thread.pool.hh"],
 [("jobs_mutex_, cv_, is_accepting_jobs_", "thread.pool.cpp"), ("drain before join", "thread.pool.cpp:await_stop")],
 ["ThreadPool::push_job / await_stop / error callback"])

prop("C10", "Streaming is free of races and deadlocks; output is schedule-independent",
 "For every schedule of the worker threads, creating a stream, appending and destroying it terminates, produces the same store bytes and the same return values, and is free of data races, of use of freed memory and of use of another thread's dead stack memory.",
 ["schedules"],
 "all interleavings of the caller and the workers at synchronization operations up to a deviation bound, for V2/V3, compressed or not, multiscale, filesystem and S3, with and without failing jobs",
 "Tests run each scenario once under whatever schedule occurs and without a race detector.",
 [S+"array.writer.cpp", S+"zarrv2.array.writer.cpp", S+"zarrv3.array.writer.cpp", S+"sink.creator.cpp", S+"thread.pool.cpp", S+"zarr.stream.cpp"],
 [("latch per batch of jobs", "array.writer.cpp, zarrv{2,3}.array.writer.cpp, sink.creator.cpp"), ("jobs reference only data owned by the waiting caller", "same")],
 ["store bytes, return values, memory accesses"])

prop("C11", "A filesystem failure is never reported as success",
 "If creating a directory or file, or writing data to one, fails (or stops short without recovery) at any point of a stream's life, then the failure is reported: stream creation returns no stream, or an append made after (or during) the failure returns an error, or, when the failure happens only while the stream is being destroyed, an error is logged. The library never crashes, hangs or corrupts data it reported as written, and a transient short write or interrupted call loses no data.",
 ["fault_sequences"],
 "every single fault at every file-system call of a run, each error kind (ENOSPC, EIO, EMFILE, EACCES, short write, EINTR)",
 "No test injects a failure of a write, open, mkdir or close.",
 [S+"file.sink.cpp", S+"sink.creator.cpp", S+"array.writer.cpp", S+"zarr.stream.cpp", S+"thread.pool.cpp"],
 [("sink return values", "file.sink.cpp"), ("error callback sets the stream error", "zarr.stream.cpp:set_error_"), ("all_successful flags", "sink.creator.cpp")],
 ["ZarrStream_create / append results, error log, store contents"])

prop("C12", "An S3 failure is never reported as success and never wedges the stream",
 "If any S3 request fails or is answered without the expected tag, then stream creation returns no stream, or a later append returns an error, or, for requests made only while the stream is destroyed, an error is logged; and no object is reported complete that is not. No such failure makes the library hang, crash or lose a connection of the pool.",
 ["fault_sequences"],
 "every single (and, within bounds, pair of) failing request(s) of a run, error and empty-tag answers",
 "The tests use a healthy server, when there is one at all.",
 [S+"s3.sink.cpp", S+"s3.connection.cpp", S+"sink.creator.cpp", S+"array.writer.cpp"],
 [("try/catch and returned connection in each request", "s3.sink.cpp"), ("EXPECT on etags and upload ids", "s3.sink.cpp, s3.connection.cpp")],
 ["ZarrStream_create / append results, error log, server contents"])

prop("C13", "Settings are validated completely and rejected without side effects",
 "Stream creation succeeds exactly for settings that satisfy the documented rules (known version and types, non-empty store path under an existing writable directory, at least 3 dimensions with non-empty valid UTF-8 names, the last two spatial, non-zero sizes except the array size of the append dimension, shard sizes non-zero for V3, valid compression, S3 and custom-metadata settings) and returns null for all others. It never crashes or hangs on null or out-of-range fields, and a rejected request changes nothing on disk or on the server. An accepted stream has copied its settings: the caller may change or free everything they point to once creation has returned.",
 ["inputs", "configurations"],
 "the product of valid and invalid values of every settings field (pairwise interactions of fields exhaustively, within an alphabet per field)",
 "The create-stream test tries a handful of invalid settings.",
 [S+"zarr.stream.cpp", S+"acquire.zarr.cpp"],
 [("validate_settings and helpers", "zarr.stream.cpp")],
 ["ZarrStream_create result, file system, server"])

prop("C14", "Creating a stream replaces the old store entirely and touches nothing else",
 "When a filesystem store path already exists, a successfully created and finished stream leaves exactly the store that would have resulted from an empty start: nothing of the previous content survives. No file outside the store path is created, changed or removed, in any state the store path or its surroundings may be in (missing, file, nested directories, symbolic links).",
 ["configurations", "histories"],
 "all initial states of the store path and siblings within an alphabet, all pairs of consecutive stream configurations",
 "Tests always start from an absent store.",
 [S+"zarr.stream.cpp", S+"sink.creator.cpp"],
 [("remove_all + create_directories", "zarr.stream.cpp:create_store_")],
 ["directory tree around and inside the store path"])

prop("C15", "A destroyed stream leaves no resources behind and memory stays bounded",
 "After a stream has been destroyed, or its creation has failed, all its threads have ended and all its memory, file descriptors and S3 connections have been released, for every configuration and history including failed ones. While streaming, the memory and descriptors held do not grow with the number of frames appended.",
 ["histories", "configurations", "fault_sequences"],
 "all configurations and histories within bounds, ending normally, by rejected settings or by an injected failure",
 "No test measures memory, threads or descriptors.",
 [S+"zarr.stream.cpp", S+"acquire.zarr.cpp", S+"array.writer.cpp", S+"thread.pool.cpp"],
 [("finalize_stream", "zarr.stream.cpp"), ("multiscale frame ownership", "zarr.stream.cpp:write_multiscale_frames_"), ("close_sinks_", "array.writer.cpp")],
 ["allocation balance, live threads, open descriptors"])

prop("C16", "Chunks completed before a crash are on disk, complete and readable",
 "If the process dies at any point (any file-system operation) after an append has returned, every layer of chunks (V2) or shards (V3) along the append dimension all of whose frames were appended by appends that had returned is present in full and decodes to the appended data. A later crash, append or finalization never alters a completed chunk or shard.",
 ["crash_points", "histories"],
 "every crash point between two file-system mutations of a run, for V2 and V3, raw and compressed",
 "No test kills the process.",
 [S+"array.writer.cpp", S+"file.sink.cpp", S+"zarrv2.array.writer.cpp", S+"zarrv3.array.writer.cpp"],
 [("flush at chunk boundary, sinks closed on rollover before append returns", "array.writer.cpp:flush_, rollover_")],
 ["store contents after the crash"])

prop("C17", "Frame-to-chunk-to-shard arithmetic is a bijection for every shape",
 "For every dimension list, the mapping from (frame, pixel) to (append layer, chunk, byte offset) and from chunk to (shard, slot) is injective, lands inside the declared numbers of chunks, shards, slots and bytes, and agrees with plain row-major coordinate arithmetic, also when the products involved exceed 32 bits (as long as each single result fits its 32-bit return type).",
 ["inputs", "configurations"],
 "all dimension lists with small sizes exhaustively, plus boundary shapes with sizes up to the 32-bit limit",
 "The unit tests compare a table of values for one or two shapes.",
 [S+"zarr.dimension.cpp", S+"zarr.common.cpp"],
 [("lattice, stride and internal index functions", "zarr.dimension.cpp")],
 ["ArrayDimensions methods, chunks_along_dimension, shards_along_dimension"])

prop("C18", "A vectored file write puts exactly the given bytes at the given offset",
 "For any list of buffers and any offset, a vectored write that reports success has stored the concatenation of the buffers at exactly that offset and changed no other byte; any failure or shortfall of the underlying write is reported as failure or completed, never ignored. Concurrent writes through one writer to disjoint ranges do not affect each other.",
 ["inputs", "fault_sequences", "histories"],
 "all buffer lists (number and sizes, empty ones included) and offsets in a boundary alphabet up to beyond 4 GiB, all short-write and error answers, and sequences of writes",
 "One test writes ten buffers twice at small offsets.",
 [S+"vectorized.file.writer.cpp"],
 [("pwritev with iovec list", "vectorized.file.writer.cpp:write_vectors")],
 ["file contents, return value"])

prop("C19", "A file sink holds exactly what was written to it",
 "For any sequence of successful writes (any offsets, sizes, overlaps and gaps) followed by finalization, the file equals the image obtained by applying the writes in order to an empty file, whatever the file contained before. A sink is produced only if its file could be opened, and a write or finalization that could not be carried out is reported as failed.",
 ["histories", "inputs", "fault_sequences"],
 "all write sequences up to a depth over an alphabet of offsets and sizes, and every failing call",
 "The test writes one small buffer.",
 [S+"file.sink.cpp", S+"sink.cpp", S+"sink.creator.cpp"],
 [("seekp + write, truncate on open", "file.sink.cpp")],
 ["file contents, return values"])

prop("C20", "Log messages obey the level, stay whole, and logging is thread-safe",
 "A message is emitted if and only if its level is at least the level set at that time, errors on the error stream and all others on the output stream; under every schedule each message is written as one uninterrupted line, and setting or reading the level while other threads log is free of data races.",
 ["schedules", "inputs"],
 "all (set level, message level) pairs; all interleavings of logging threads and a level change within bounds",
 "No test covers the logger.",
 ["src/logger/logger.cpp", "src/logger/logger.hh", S+"acquire.zarr.cpp"],
 [("log_mutex_", "logger.hh:log"), ("current_level_", "logger.cpp")],
 ["stdout/stderr bytes"])

prop("C21", "API helpers answer every argument within their contract",
 "For every argument value, including null pointers and out-of-range enumerators, the C API helper functions return the documented status and never crash: log level set/get round-trips for valid levels and is unchanged by invalid ones, every status code has its own non-null message, a dimension array is created only for a non-null settings object and at least 3 dimensions and replaces the previous one, and destroying null or twice is harmless.",
 ["inputs", "histories"],
 "all enumerator values in and around the valid range and all sequences of helper calls up to a depth",
 "Tests call each helper once or twice with valid values.",
 [S+"acquire.zarr.cpp"],
 [("argument checks", "acquire.zarr.cpp")],
 ["return values, settings fields"])

prop("C22", "A stream that has failed stays failed, and its caller can always destroy it",
 "Once an append has returned an error, every later append returns an error and changes nothing further in the store's completed chunks; destroying the stream, in whatever state it is, terminates without crashing. A successful append after a failed one never happens on the same stream.",
 ["histories", "fault_sequences"],
 "all sequences of appends after each injected failure",
 "No test continues after a failure.",
 [S+"zarr.stream.cpp", S+"acquire.zarr.cpp"],
 [("error_ checked at the start of append", "zarr.stream.cpp:append")],
 ["ZarrStream_append status sequence"])

prop("C23", "Streams in one process do not influence each other",
 "Two streams with different store paths, neither inside the other, used alternately by one thread or concurrently by two threads, each produce exactly the store and return values they produce alone, and their concurrent use is free of data races.",
 ["schedules", "histories"],
 "all interleavings of the operations of two streams (sequential alternation exhaustively; concurrent use up to a deviation bound)",
 "No test has two streams.",
 [S+"zarr.stream.cpp", S+"array.writer.cpp", "src/logger/logger.cpp"],
 [("no shared mutable state besides the logger", "whole library")],
 ["both stores, return values"])

prop("C24", "Sink creation makes exactly the prescribed paths or reports failure",
 "For any dimension list, creating the data sinks of a level yields one sink per chunk or shard, in row-major order, each bound to its own path, with all needed directories created and no other; creating metadata sinks yields exactly the documented keys. Under every worker schedule, if any directory or file cannot be created the call reports failure, and when the call returns no worker still uses memory of the call.",
 ["schedules", "configurations", "fault_sequences"],
 "all small dimension lists; all placements of a path that cannot be created; all interleavings of the workers within bounds",
 "The tests create sinks for one shape, on success only, under one schedule.",
 [S+"sink.creator.cpp"],
 [("parallel mkdir/open jobs with latch and all_successful flag", "sink.creator.cpp:make_dirs_, make_files_")],
 ["sinks vector, file system, return value"])

prop("C25", "Pyramid geometry is finite, and each level halves the one below it",
 "For every accepted dimension list, setting up a multiscale stream terminates with finitely many levels; each level's array size along every non-channel dimension is half the size below, rounded up, its chunk size is the smaller of the chunk size below and that array size, its shard size does not exceed its number of chunks, and channel dimensions, names, types and data type are unchanged. Downsampling continues exactly until some chunk size has become smaller, or no array size changes any more. (An append dimension of unspecified size stays unspecified.)",
 ["configurations", "inputs"],
 "all dimension lists with small sizes, types, and boundary sizes",
 "One test downsamples one configuration.",
 [S+"array.writer.cpp", S+"zarr.stream.cpp"],
 [("downsample()", "array.writer.cpp"), ("level loop", "zarr.stream.cpp:create_writers_")],
 ["downsample() result; levels of a created stream"])

prop("C26", "The Python bindings pass settings and data to the stream unchanged",
 "Every setting made through the Python classes, to the constructor or later and in any order, reads back and reaches the stream unchanged; values that do not fit are refused; appending a NumPy array of any layout (also transposed, sliced, reversed or broadcast) stores the array's elements in row-major order; every failure to create a stream or to append becomes an exception; and the stream is destroyed exactly once, together with its object.",
 ["inputs", "configurations"],
 "all settings values, ways of stating them and array layouts (C, Fortran, strided, sliced)",
 "The Python tests use contiguous arrays only.",
 ["python/acquire-zarr-py.cpp"],
 [("PyZarrStream::append", "python/acquire-zarr-py.cpp")],
 ["store written from Python"])

prop("C27", "The caller's memory is only read, and only during the call",
 "Every call reads no byte outside the buffers, strings and structures its arguments designate, changes none of them except the designated outputs, and has finished with all of them when it returns, under every worker schedule. So appended data may lie at any address (also in read-only memory and at the very end of a mapping) and be overwritten or freed at once, and the same settings can be used for another stream; the store is right in all these cases.",
 ["inputs", "histories", "schedules"],
 "every way of cutting the data into appends, every stream configuration, both ends of a page, every schedule of the workers within bounds",
 "Tests append from long-lived writable vectors, so reading too much, writing back or reading late goes unnoticed.",
 [S+"zarr.stream.cpp", S+"acquire.zarr.cpp", S+"array.writer.cpp"],
 [("partial frames are copied", "zarr.stream.cpp:append"), ("frames are copied to chunk buffers before append returns", "array.writer.cpp:write_frame_to_chunks_")],
 ["memory protection faults", "finished store"])

prop("C28", "The store depends on the settings and the data alone",
 "The bytes of the store and the return values are the same whatever the process around the stream looks like: number of processors, environment variables, C and C++ locale, umask, log level, errno, state of the standard streams, and which thread makes which call. A relative store path denotes the place it denotes when the stream is created, also if the working directory changes afterwards.",
 ["configurations", "histories"],
 "every deviation of the process from a plain one in a list, alone and in pairs; every assignment of the calls to threads; every operation before which the working directory changes",
 "Tests run in one environment, in the C locale, with one log level, from one thread.",
 [S+"zarr.stream.cpp", S+"sink.creator.cpp", S+"array.writer.cpp", "src/logger/logger.hh"],
 [("paths and keys are built without locale; the store path is made absolute", "sink.creator.cpp, zarr.stream.cpp:create_store_"), ("compression parameters are passed explicitly", "array.writer.cpp:compress_buffers_")],
 ["finished store", "return values"])

prop("C29", "A compression failure is never reported as success",
 "If the compressor reports an error for any chunk, then the append that needed the chunk or a later one returns an error or, when it happens in the last append or while the stream is destroyed, at least an error is logged; otherwise the finished store is complete all the same. Chunks acknowledged before stay right, later appends keep failing, and nothing hangs or crashes.",
 ["fault_sequences", "histories"],
 "every call of the compressor in every listed history fails, once, from there on, and in pairs",
 "The compressor never fails in the tests.",
 [S+"array.writer.cpp", S+"zarr.stream.cpp"],
 [("result of the compress job is recorded and checked", "array.writer.cpp:compress_buffers_, flush_"), ("a failed job makes the stream fail", "zarr.stream.cpp:append")],
 ["ZarrStream_append status sequence", "log at destruction", "finished store"])

prop("C30", "Running out of memory or threads is reported, never a crash",
 "If memory for frames, chunks, compressed data, shard indexes or object parts (any block of 1 KiB or more) cannot be had, or a thread cannot be started, then stream creation returns no stream, or the append that needed it or a later one returns an error, or, when it happens in the last append or while the stream is destroyed, at least an error is logged; otherwise the finished store is complete all the same. The process is never ended, nothing hangs, chunks acknowledged before stay right, and later appends keep failing. The same holds for settings whose chunks are too large for any memory.",
 ["fault_sequences", "histories", "configurations"],
 "every allocation of 1 KiB or more in every listed history fails, once, from there on, and in pairs; every thread; chunk sizes up to 2^32-1 per dimension",
 "No test makes an allocation or the start of a thread fail, or asks for chunks larger than memory.",
 [S+"array.writer.cpp", S+"zarr.stream.cpp", S+"thread.pool.cpp", S+"sink.creator.cpp", S+"acquire.zarr.cpp"],
 [("exceptions become a null stream or a status", "acquire.zarr.cpp:ZarrStream_create, ZarrStream_append, ZarrStream_destroy"), ("chunk buffers are allocated on the first frame", "array.writer.cpp:make_buffers_"), ("jobs catch what they throw", "array.writer.cpp:compress_buffers_, zarrv2/zarrv3.array.writer.cpp:flush_impl_, sink.creator.cpp"), ("threads started before one fails are joined", "thread.pool.cpp:ThreadPool")],
 ["process state", "ZarrStream_create result", "ZarrStream_append status sequence", "log at destruction", "finished store"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
