// Controls that the sequential harness needs over the environment.
#include <thread>

// number of worker threads a stream's pool gets (the pool clamps to this)
unsigned g_hw_threads = 1;
unsigned
std::thread::hardware_concurrency() noexcept
{
    return g_hw_threads;
}

// Fresh memory is filled with a pattern (also large blocks), so that uninitialised bytes in a store are seen;
// freed memory stays poisoned for a while, but processes stay small enough to be forked quickly.
extern "C" const char*
__asan_default_options()
{
    return "max_malloc_fill_size=1048576:malloc_fill_byte=190:quarantine_size_mb=8";
}
