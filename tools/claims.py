# claimed[id] = dict(technique=, level=, note=)
SEQ = ("bounded exhaustive exploration: every case of a finite, stated alphabet of configurations and histories is run on the "
       "real code and compared with an independent reference model")
BUILD = " Trusted: the reference reader in src/spec.cpp, the compiler and AddressSanitizer, blosc's decoder, the in-memory S3 server in place of minio-cpp."
def mc(technique, note):
    return dict(technique=technique, level="model_checking", note=note + BUILD)
claimed["C02"] = mc(SEQ, "Holds for all enumerated V2 configurations and frame counts (evidence lists the bounds); sizes beyond the bounds are covered by boundary shapes only.")
claimed["C03"] = mc(SEQ, "Holds for all enumerated V3 configurations and frame counts (evidence lists the bounds); sizes beyond the bounds are covered by boundary shapes only.")
claimed["C01"] = mc(SEQ, "Every composition of short byte sequences and every set of cut points of longer ones, compared with whole-frame appends; the whole-frame store is itself read back.")
claimed["C04"] = mc(SEQ, "Every metadata document of every enumerated store is parsed and compared field by field with the reference model.")
claimed["C05"] = mc(SEQ, "All 2x2x2 block contents over alphabets with the extremes of each type, all small shapes, all frame counts in the bound.")
claimed["C06"] = mc(SEQ, "Every enumerated history is run to the filesystem and to the in-memory S3 server and the stores compared byte by byte.")
claimed["C25"] = mc(SEQ, "The recorded geometry of all levels of every enumerated shape against the recursive definition.")
claimed["C07"] = mc(SEQ, "All write sequences to the stated depth over sizes around the part size, against a server model that enforces the S3 multipart rules.")
claimed["C13"] = mc(SEQ, "All single and pairwise deviations from valid settings against an independent predicate; file system and server compared before and after.")
claimed["C14"] = mc(SEQ, "All combinations of initial state, path spelling and stream configuration; run as an unprivileged user inside a scratch directory.")
claimed["C17"] = mc(SEQ, "Every frame and chunk of every shape in the bound against 128-bit coordinate arithmetic, plus all pairs of boundary sizes.")
claimed["C19"] = mc(SEQ, "All write sequences to depth 3 over a grid of offsets and sizes; unopenable paths; full device.")
claimed["C21"] = mc(SEQ, "All triples of helper calls over valid and out-of-range arguments.")

FAULT = ("bounded exhaustive exploration of environment answers: every file-system call or S3 request of every listed history fails in every listed way, "
         "on the real code, compared with an independent reference model")
claimed["C11"] = mc(FAULT, "One fault per execution: at one point once, from there on, or on every call for one file; two independent faults are not combined. close() failures are outside the fault model.")
claimed["C12"] = mc(FAULT, "One fault per execution: at one point once, from there on, or on every request for one object; answers: error, success without tag.")
claimed["C15"] = mc(FAULT, "Allocated bytes, descriptors, threads and connections after the second and third execution of the same life are compared, for every life with and without a fault; growth over many periods of a stream.")
claimed["C16"] = mc("exhaustive crash-point exploration: the real process is killed before every file-system call and inside every write of every listed history, and the remaining files are read back", "Process death, not power loss: data handed to the operating system counts as stored.")
claimed["C18"] = mc(SEQ + "; every system call of the writes failing or falling short", "Concurrent writes are explored on the disjoint ranges of the harness only.")
claimed["C22"] = mc(FAULT, "Every fault of C11 and C12 followed by further appends and destruction.")
claimed["C24"] = mc(SEQ + "; every system call of sink creation failing", "All part lattices in the bound, an obstacle at every place, every failing call.")

MC = ("stateless exploration of thread schedules of the real code: a controlled scheduler runs every interleaving of the visible operations that can matter, "
      "up to a bound on deviations from each of three default schedules, with a happens-before race detector and an oracle on every execution")
SCHED = " Sequentially consistent executions only; code inside blosc and the standard library's own binaries is atomic. The evidence lists for every scenario the bound reached."
claimed["C08"] = mc(MC, "All schedules of the listed borrowers and sinks within the bound." + SCHED)
claimed["C09"] = mc(MC, "All schedules of the listed producers, workers and shutdowns within the bound, spurious wake-ups included." + SCHED)
claimed["C10"] = mc(MC, "All schedules of the listed streams (2 and 3 workers) within the bound, one deviation in the quick tier and two in the thorough tier." + SCHED)
claimed["C20"] = mc(MC + "; all (set level, message level) pairs", "All schedules of the listed loggers and level changes within the bound." + SCHED)
claimed["C23"] = mc(MC + "; and " + SEQ, "All interleavings of the operations of two streams on one thread; all schedules within the bound of two streams on two threads." + SCHED)
claimed["C18"] = mc(SEQ + "; every system call of the writes failing or falling short; " + MC, "Concurrent writes: all schedules of the listed two and three threads.")
claimed["C24"] = mc(SEQ + "; every system call of sink creation failing; " + MC, "All part lattices in the bound, an obstacle at every place, every failing call; all schedules within the bound of two and three workers." + SCHED)
claimed["C27"] = mc(SEQ + "; " + MC, "Pages of the caller are read-only during the call, bounded by unmapped pages, and inaccessible after it. Schedules: eight streams with one and two workers." + SCHED)
claimed["C28"] = mc(SEQ, "Every listed deviation of the process alone, in pairs, and every assignment of calls to threads; each life in a process of its own, compared with the same life in a plain process, which is itself read back.")
claimed["C29"] = mc(FAULT.replace("file-system call or S3 request", "call of the compressor"), "blosc's entry points are replaced by ones that fail on demand with a negative result; a result of 0, impossible with the space given, is not enumerated.")
claimed["C30"] = mc(FAULT.replace("file-system call or S3 request", "allocation of 1 KiB or more and every start of a thread"), "operator new and pthread_create are replaced by ones that fail on demand. Blocks below 1 KiB (strings, queue nodes) and memory that blosc allocates by itself do not fail.")
claimed["C26"] = mc(SEQ, "The module's unmodified source runs on a stand-in for pybind11 and NumPy arrays (shim/pybind11), neither of which is installed; trusted: that the real ones convert as the stand-in does. Arrays in native byte order.")
