// Control side of the in-memory S3 server (see shim/miniocpp/client.h).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace fake_s3 {
// What the environment answers to one request.
enum class Answer
{
    Ok,
    Error,     // request refused, nothing changed on the server
    EmptyEtag, // 2xx without an etag / upload id; nothing changed on the server
};

struct Request
{
    uint64_t seq;       // number of this request since reset()
    std::string op;     // list, bucket_exists, put, create_mp, upload_part, ...
    std::string bucket;
    std::string object;
    unsigned part = 0;
    size_t size = 0;
    int client = 0; // ordinal of the client (connection) used
    bool ok = true;
};

struct Server
{
    std::map<std::string, std::map<std::string, std::string>> buckets;
    struct Upload
    {
        std::string bucket, object;
        std::map<unsigned, std::pair<std::string, std::string>> parts;
        bool done = false;
    };
    std::map<std::string, Upload> uploads;
    std::map<std::string, int> upload_count; // by object: names the upload ids
    std::vector<Request> log;
    // anything a real server or client library would call a protocol violation
    std::vector<std::string> violations;
    size_t min_part = 5 << 20;
    // whom the server lets in and where it is; empty: anyone, anywhere
    std::string want_host, want_key, want_secret;
    uint64_t refused = 0; // requests of others
    int clients_alive = 0;
    int clients_made = 0;
    uint64_t seq = 0;
    uint64_t overlapping = 0; // overlapping use of one client
};

Server& server();
void reset();
// From now on only requests to this address with these credentials are served.
inline void
serve_only(const std::string& host = "http://localhost:9000", const std::string& key = "key", const std::string& secret = "secret")
{
    server().want_host = host;
    server().want_key = key;
    server().want_secret = secret;
}
// Environment decision for a request; default: Ok. Called outside the server's lock.
extern std::function<Answer(const Request&)> decide;
// Scheduling hook: called at the start (phase 0) and in the middle (phase 1) of each request.
extern void (*sched_hook)(int phase, const void* client, const char* op, const std::string& key);
// this thread is inside the server model (whose allocations are not the library's)
extern thread_local int busy;
} // namespace fake_s3
