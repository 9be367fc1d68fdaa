#include "fake_s3.hh"
#include "miniocpp/client.h"

#include <sstream>

// the schedule explorer's runtime, where it is linked in
extern "C" {
__attribute__((weak)) void mcrt_ignore(int delta);
__attribute__((weak)) void mcrt_access(const void* p, size_t n, int write);
}
static inline void
ignore_accesses(int d)
{
    if (mcrt_ignore)
        mcrt_ignore(d);
}

namespace fake_s3 {
static Server& the_server()
{
    static Server* s = new Server; // constructed on first use, never destroyed
    return *s;
}
#define g_server the_server()
static volatile int g_lock = 0;
std::function<Answer(const Request&)> decide;
void (*sched_hook)(int, const void*, const char*, const std::string&) = nullptr;

Server& server() { return g_server; }
void reset() { g_server = Server{}; }

// Spin lock by compiler builtins: free running harnesses have real threads; under the
// controlled scheduler nobody is descheduled while holding it.
struct Guard
{
    Guard()
    {
        ignore_accesses(1);
        while (__atomic_exchange_n(&g_lock, 1, __ATOMIC_ACQUIRE))
            __builtin_ia32_pause();
    }
    ~Guard()
    {
        __atomic_store_n(&g_lock, 0, __ATOMIC_RELEASE);
        ignore_accesses(-1);
    }
};

struct ClientImpl
{
    int id;
    int in_use = 0;
    bool https = true;
    std::string host;
    minio::creds::Provider* provider = nullptr; // asked for the credentials at each request
};

// A request reaches the server only at its address, over TLS exactly if the address says so, and with its credentials.
static bool
let_in(const ClientImpl& c)
{
    const std::string key = c.provider ? c.provider->creds.access_key : "", secret = c.provider ? c.provider->creds.secret_key : "";
    return (g_server.want_host.empty() || (c.host == g_server.want_host && c.https == (g_server.want_host.rfind("https", 0) == 0))) &&
           (g_server.want_key.empty() || key == g_server.want_key) && (g_server.want_secret.empty() || secret == g_server.want_secret);
}

thread_local int busy = 0;

// One request on one client: announces itself, detects overlapping use of a client.
struct Own
{
    Own() { ++busy; }
    ~Own() { --busy; }
};
struct Call : Own
{
    ClientImpl* c;
    Request r;
    Answer a = Answer::Ok;
    bool denied = false;
    Call(void* impl, const char* op, const std::string& bucket, const std::string& object)
      : c(static_cast<ClientImpl*>(impl))
    {
        if (sched_hook)
            sched_hook(0, c, op, bucket + "/" + object);
        {
            Guard g;
            if (c->in_use++) {
                ++g_server.overlapping;
                g_server.violations.push_back(std::string("client used by two requests at once: ") + op);
            }
            denied = !let_in(*c);
            g_server.refused += denied;
            r.seq = g_server.seq++;
            r.op = op;
            r.bucket = bucket;
            r.object = object;
            r.client = c->id;
        }
        if (sched_hook)
            sched_hook(1, c, op, bucket + "/" + object);
    }
    void go(unsigned part = 0, size_t size = 0)
    {
        r.part = part;
        r.size = size;
        if (decide) {
            ignore_accesses(1);
            a = decide(r);
            ignore_accesses(-1);
        }
        if (denied)
            a = Answer::Error;
    }
    void violation(const std::string& what)
    {
        g_server.violations.push_back(r.op + " " + r.bucket + "/" + r.object + ": " + what);
    }
    void fail(minio::s3::Response& resp, const std::string& msg)
    {
        r.ok = false;
        resp.status_code = 500;
        resp.err = msg;
    }
    ~Call()
    {
        Guard g;
        --c->in_use;
        g_server.log.push_back(r);
    }
};

__attribute__((no_sanitize("address"), optimize("O2"))) static std::string etag_of(const std::string& d)
{
    uint64_t h = 1469598103934665603ull;
    size_t i = 0;
    for (; i + 8 <= d.size(); i += 8) {
        uint64_t w;
        __builtin_memcpy(&w, d.data() + i, 8);
        h = (h ^ w) * 1099511628211ull;
        h ^= h >> 32;
    }
    for (; i < d.size(); ++i)
        h = (h ^ (unsigned char)d[i]) * 1099511628211ull;
    std::ostringstream ss;
    ss << std::hex << h << "-" << d.size();
    return ss.str();
}
} // namespace fake_s3

using namespace fake_s3;

namespace minio {
creds::StaticProvider::StaticProvider(std::string a, std::string s, std::string)
{
    creds.access_key = std::move(a);
    creds.secret_key = std::move(s);
}
creds::StaticProvider::~StaticProvider() = default;

namespace s3 {
BaseUrl::BaseUrl(std::string h, bool s, std::string)
  : https(s)
  , host(std::move(h))
{
}
PutObjectArgs::PutObjectArgs(std::istream& s, long o, long p)
  : stream(s)
  , object_size(o)
  , part_size((size_t)p)
{
}
Client::Client(BaseUrl& url, creds::Provider* provider)
{
    Guard g;
    auto* c = new ClientImpl;
    c->https = url.https;
    c->host = url.host;
    c->provider = provider;
    c->id = g_server.clients_made++;
    ++g_server.clients_alive;
    impl_ = c;
}
Client::~Client()
{
    Guard g;
    auto* c = static_cast<ClientImpl*>(impl_);
    if (c->in_use)
        g_server.violations.push_back("client destroyed while a request is running");
    --g_server.clients_alive;
    delete c;
}
ListBucketsResponse Client::ListBuckets(ListBucketsArgs)
{
    ListBucketsResponse resp;
    Call call(impl_, "list", "", "");
    call.go();
    if (call.a != Answer::Ok) {
        call.fail(resp, "injected: list buckets");
        return resp;
    }
    Guard g;
    resp.status_code = 200;
    for (auto& [k, v] : g_server.buckets)
        resp.buckets.push_back(k);
    return resp;
}
BucketExistsResponse Client::BucketExists(BucketExistsArgs args)
{
    BucketExistsResponse resp;
    Call call(impl_, "bucket_exists", args.bucket, "");
    call.go();
    if (call.a != Answer::Ok) {
        call.fail(resp, "injected: bucket exists");
        return resp;
    }
    Guard g;
    resp.status_code = 200;
    resp.exist = g_server.buckets.count(args.bucket) > 0;
    return resp;
}
MakeBucketResponse Client::MakeBucket(MakeBucketArgs args)
{
    MakeBucketResponse resp;
    Call call(impl_, "make_bucket", args.bucket, "");
    call.go();
    Guard g;
    g_server.buckets[args.bucket];
    resp.status_code = 200;
    return resp;
}
StatObjectResponse Client::StatObject(StatObjectArgs args)
{
    StatObjectResponse resp;
    Call call(impl_, "stat", args.bucket, args.object);
    call.go();
    if (call.a != Answer::Ok) {
        call.fail(resp, "injected: stat");
        return resp;
    }
    Guard g;
    auto b = g_server.buckets.find(args.bucket);
    if (b == g_server.buckets.end() || !b->second.count(args.object)) {
        resp.status_code = 404;
        resp.err = "NoSuchKey";
        return resp;
    }
    resp.status_code = 200;
    resp.size = b->second[args.object].size();
    resp.etag = etag_of(b->second[args.object]);
    return resp;
}
RemoveObjectResponse Client::RemoveObject(RemoveObjectArgs args)
{
    RemoveObjectResponse resp;
    Call call(impl_, "remove", args.bucket, args.object);
    call.go();
    if (call.a != Answer::Ok) {
        call.fail(resp, "injected: remove");
        return resp;
    }
    Guard g;
    auto b = g_server.buckets.find(args.bucket);
    if (b != g_server.buckets.end())
        b->second.erase(args.object);
    resp.status_code = 204;
    return resp;
}
RemoveObjectsResult Client::RemoveObjects(RemoveObjectsArgs args)
{
    DeleteObject o;
    while (args.func && args.func(o)) {
        RemoveObjectArgs a;
        a.bucket = args.bucket;
        a.object = o.name;
        RemoveObject(a);
    }
    return {};
}
GetObjectResponse Client::GetObject(GetObjectArgs args)
{
    GetObjectResponse resp;
    std::string body;
    {
        Call call(impl_, "get", args.bucket, args.object);
        call.go();
        if (call.a != Answer::Ok) {
            call.fail(resp, "injected: get");
            return resp;
        }
        Guard g;
        auto b = g_server.buckets.find(args.bucket);
        if (b == g_server.buckets.end() || !b->second.count(args.object)) {
            resp.status_code = 404;
            resp.err = "NoSuchKey";
            return resp;
        }
        body = b->second[args.object];
        resp.status_code = 200;
    }
    if (args.datafunc) {
        http::DataFunctionArgs d;
        d.datachunk = body;
        d.userdata = args.userdata;
        args.datafunc(d);
    }
    return resp;
}
PutObjectResponse Client::PutObject(PutObjectArgs args)
{
    PutObjectResponse resp;
    Call call(impl_, "put", args.bucket, args.object);
    std::string body;
    if (args.object_size >= 0) {
        body.resize((size_t)args.object_size);
        args.stream.read(body.data(), args.object_size);
        if (args.stream.gcount() != args.object_size) {
            Guard g;
            call.violation("stream shorter than the declared object size");
        }
    } else {
        std::ostringstream ss;
        ss << args.stream.rdbuf();
        body = ss.str();
    }
    call.go(0, body.size());
    if (call.a == Answer::Error) {
        call.fail(resp, "injected: put");
        return resp;
    }
    Guard g;
    resp.status_code = 200;
    if (call.a == Answer::EmptyEtag) {
        call.r.ok = false;
        return resp;
    }
    auto b = g_server.buckets.find(args.bucket);
    if (b == g_server.buckets.end()) {
        call.fail(resp, "NoSuchBucket");
        return resp;
    }
    resp.etag = etag_of(body);
    b->second[args.object] = std::move(body);
    return resp;
}
CreateMultipartUploadResponse Client::CreateMultipartUpload(CreateMultipartUploadArgs args)
{
    CreateMultipartUploadResponse resp;
    Call call(impl_, "create_mp", args.bucket, args.object);
    call.go();
    if (call.a == Answer::Error) {
        call.fail(resp, "injected: create multipart");
        return resp;
    }
    Guard g;
    resp.status_code = 200;
    if (call.a == Answer::EmptyEtag) {
        call.r.ok = false;
        return resp;
    }
    if (!g_server.buckets.count(args.bucket)) {
        call.fail(resp, "NoSuchBucket");
        return resp;
    }
    // the id depends on the object only, not on what other threads upload
    const int nth = ++g_server.upload_count[args.bucket + "/" + args.object];
    resp.upload_id = "upload-" + args.object + "-" + std::to_string(nth);
    auto& u = g_server.uploads[resp.upload_id];
    u.bucket = args.bucket;
    u.object = args.object;
    return resp;
}
UploadPartResponse Client::UploadPart(UploadPartArgs args)
{
    UploadPartResponse resp;
    Call call(impl_, "upload_part", args.bucket, args.object);
    if (mcrt_access)
        mcrt_access(args.data.data(), args.data.size(), 0);
    std::string body(args.data);
    call.go(args.part_number, body.size());
    if (call.a == Answer::Error) {
        call.fail(resp, "injected: upload part");
        return resp;
    }
    Guard g;
    resp.status_code = 200;
    if (call.a == Answer::EmptyEtag) {
        call.r.ok = false;
        return resp;
    }
    auto u = g_server.uploads.find(args.upload_id);
    if (u == g_server.uploads.end() || u->second.done || u->second.bucket != args.bucket ||
        u->second.object != args.object) {
        call.violation("upload_part: NoSuchUpload '" + args.upload_id + "'");
        call.fail(resp, "NoSuchUpload");
        return resp;
    }
    if (args.part_number < 1 || args.part_number > 10000) {
        call.violation("upload_part: part number out of range");
        call.fail(resp, "InvalidPart");
        return resp;
    }
    resp.etag = etag_of(body) + "-p" + std::to_string(args.part_number);
    u->second.parts[args.part_number] = { resp.etag, std::move(body) };
    return resp;
}
CompleteMultipartUploadResponse Client::CompleteMultipartUpload(CompleteMultipartUploadArgs args)
{
    CompleteMultipartUploadResponse resp;
    Call call(impl_, "complete_mp", args.bucket, args.object);
    call.go(0, args.parts.size());
    if (call.a != Answer::Ok) {
        call.fail(resp, "injected: complete multipart");
        return resp;
    }
    Guard g;
    auto u = g_server.uploads.find(args.upload_id);
    if (u == g_server.uploads.end() || u->second.done || u->second.bucket != args.bucket ||
        u->second.object != args.object) {
        call.violation("complete_mp: NoSuchUpload '" + args.upload_id + "'");
        call.fail(resp, "NoSuchUpload");
        return resp;
    }
    std::string body;
    unsigned last = 0;
    size_t i = 0;
    for (auto& p : args.parts) {
        ++i;
        auto it = u->second.parts.find(p.number);
        if (p.number <= last) {
            call.violation("complete_mp: parts not in ascending order");
            call.fail(resp, "InvalidPartOrder");
            return resp;
        }
        last = p.number;
        if (it == u->second.parts.end() || it->second.first != p.etag) {
            call.violation("complete_mp: unknown part or etag mismatch");
            call.fail(resp, "InvalidPart");
            return resp;
        }
        if (i < args.parts.size() && it->second.second.size() < g_server.min_part) {
            call.violation("complete_mp: a part other than the last is smaller than 5 MiB");
            call.fail(resp, "EntityTooSmall");
            return resp;
        }
        body += it->second.second;
    }
    if (args.parts.size() != u->second.parts.size())
        call.violation("complete_mp: uploaded parts left out");
    u->second.done = true;
    resp.status_code = 200;
    resp.etag = etag_of(body);
    g_server.buckets[args.bucket][args.object] = std::move(body);
    return resp;
}
AbortMultipartUploadResponse Client::AbortMultipartUpload(AbortMultipartUploadArgs args)
{
    AbortMultipartUploadResponse resp;
    Call call(impl_, "abort_mp", args.bucket, args.object);
    call.go();
    if (call.a != Answer::Ok) {
        call.fail(resp, "injected: abort multipart");
        return resp;
    }
    Guard g;
    g_server.uploads.erase(args.upload_id);
    resp.status_code = 204;
    return resp;
}
} // namespace s3
} // namespace minio
