"""Which harness binary decides which property, and how the binaries are built."""
import os

WARN = ["-w"]
ASAN = ["-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
TSAN = ["-g", "-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-builtin", "-fno-omit-frame-pointer", "-fno-pie"]
PLAIN = WARN + ["-g1", "-O2", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-fno-strict-aliasing", "-fno-pie"]
SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "src")
VARIANTS = {
    # sequential exploration: everything under AddressSanitizer
    "seq": dict(
        repo_flags=WARN + ASAN, harness_flags=WARN + ASAN,
        harness=["cfg.cpp", "spec.cpp", "runner.cpp", "interpose.cpp", "fake_s3.cpp", "sysfault.cpp", "seq_*.cpp"],
        link=["-fsanitize=address", "-lblosc", "-lpthread"]),
    # the Python module's source, on a stand-in for pybind11
    "py": dict(
        repo_extra=["python/acquire-zarr-py.cpp"],
        repo_flags=WARN + ASAN, harness_flags=WARN + ASAN,
        harness=["cfg.cpp", "spec.cpp", "runner.cpp", "interpose.cpp", "fake_s3.cpp", "py_*.cpp"],
        link=["-fsanitize=address", "-lblosc", "-lpthread", "-Wl,--wrap=ZarrStream_create", "-Wl,--wrap=ZarrStream_append", "-Wl,--wrap=ZarrStream_destroy"]),
    # schedule exploration: the code under test is instrumented (-fsanitize=thread emits the calls), the
    # runtime in src/mc/mcrt.cpp takes the place of libtsan; instrumented objects come first in the link
    "mc": dict(
        shim=["mc"],
        repo_flags=WARN + TSAN, harness_flags=PLAIN,
        harness=[("mc_*.cpp", WARN + TSAN + ["-I" + SRC]), "mc/mcrt.cpp", "mc/explore.cpp", "cfg.cpp", "spec.cpp", "runner.cpp",
                 "interpose.cpp", "fake_s3.cpp"],
        link=["-no-pie", "-rdynamic", "-lblosc", "-lpthread", "-ldl"]),
}

def seq(i, **k):
    return dict(id=i, variant="seq", **k)

def mc(i, **k):
    return dict(dict(id=i, variant="mc", shards=1, hang=120), **k)

PLAN = {
    "C02": dict(level="model_checking", steps=[seq("C02")]),
    "C01": dict(level="model_checking", steps=[seq("C01")]),
    "C04": dict(level="model_checking", steps=[seq("C04")]),
    "C05": dict(level="model_checking", steps=[seq("C05")]),
    "C06": dict(level="model_checking", steps=[seq("C06")]),
    "C25": dict(level="model_checking", steps=[seq("C25", hang=30)]),
    "C03": dict(level="model_checking", steps=[seq("C03")]),
    "C07": dict(level="model_checking", steps=[seq("C07")]),
    "C17": dict(level="model_checking", steps=[seq("C17")]),
    "C18": dict(level="model_checking", steps=[seq("C18"), seq("C18f"), mc("C18m")]),
    "C19": dict(level="model_checking", steps=[seq("C19"), seq("C19f")]),
    "C21": dict(level="model_checking", steps=[seq("C21")]),
    "C24": dict(level="model_checking", steps=[seq("C24"), seq("C24f"), mc("C24m")]),
    "C13": dict(level="model_checking", steps=[seq("C13")]),
    "C14": dict(level="model_checking", steps=[seq("C14")]),
    "C11": dict(level="model_checking", steps=[seq("C11", hang=30)]),
    "C12": dict(level="model_checking", steps=[seq("C12", hang=20)]),
    "C15": dict(level="model_checking", steps=[seq("C15", hang=40)]),
    "C16": dict(level="model_checking", steps=[seq("C16", hang=30)]),
    "C22": dict(level="model_checking", steps=[seq("C22", hang=30), seq("C22s3", hang=20)]),
}
PLAN.update({
    "C09": dict(level="model_checking", steps=[mc("C09")]),
})
PLAN["C08"] = dict(level="model_checking", steps=[mc("C08")])
PLAN["C10"] = dict(level="model_checking", steps=[mc("C10")])
PLAN["C20"] = dict(level="model_checking", steps=[mc("C20")])
PLAN["C23"] = dict(level="model_checking", steps=[seq("C23", hang=30), mc("C23m")])
PLAN["C27"] = dict(level="model_checking", steps=[seq("C27", hang=30), mc("C27m")])
PLAN["C28"] = dict(level="model_checking", steps=[seq("C28", hang=30)])
PLAN["C29"] = dict(level="model_checking", steps=[seq("C29", hang=30)])
PLAN["C30"] = dict(level="model_checking", steps=[seq("C30", hang=30)])
PLAN["C26"] = dict(level="model_checking", steps=[dict(id="C26", variant="py", hang=30)])
