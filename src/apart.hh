// Executions in a process of their own.
#pragma once
#include "cfg.hh"

#include <cstdlib>
#include <sys/wait.h>
#include <unistd.h>

// Runs f in a fresh copy of this process, in which no stream has been made before; its answer
// comes back as JSON (null if the copy died).
template<typename F>
json
apart(F f)
{
    int fd[2];
    if (pipe(fd))
        abort();
    const pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        const std::vector<uint8_t> t = json::to_cbor(f());
        size_t o = 0;
        while (o < t.size()) {
            const ssize_t n = write(fd[1], t.data() + o, t.size() - o);
            if (n <= 0)
                _exit(1);
            o += n;
        }
        _exit(0);
    }
    close(fd[1]);
    std::vector<uint8_t> t;
    uint8_t buf[65536];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;)
        t.insert(t.end(), buf, buf + n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st))
        return nullptr;
    return json::from_cbor(t);
}
inline json binary(const std::string& s) { return json::binary(std::vector<uint8_t>(s.begin(), s.end())); }
inline std::string text(const json& j) { auto& b = j.get_binary(); return std::string(b.begin(), b.end()); }
