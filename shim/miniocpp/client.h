// In-memory stand-in for the part of minio-cpp (v0.3.0) that acquire-zarr and
// its tests use: an environment model of an S3 server, not a copy of minio-cpp.
// Only declarations here; the server lives in /verif/src/fake_s3.cpp, which is
// never instrumented, so that its internal state cannot look like a data race
// of the code under test.
#pragma once
#include <cstddef>
#include <functional>
#include <istream>
#include <list>
#include <map>
#include <streambuf>
#include <string>
#include <string_view>

namespace minio {
namespace error {
class Error
{
    std::string msg_;

  public:
    Error() = default;
    explicit Error(std::string_view m)
      : msg_(m)
    {
    }
    operator bool() const { return !msg_.empty(); }
    std::string String() const { return msg_; }
};
} // namespace error

namespace http {
struct DataFunctionArgs
{
    std::string datachunk;
    void* userdata = nullptr;
};
using DataFunction = std::function<bool(DataFunctionArgs)>;
} // namespace http

namespace utils {
struct CharBuffer : std::streambuf
{
    CharBuffer(char* buf, size_t size) { this->setg(buf, buf, buf + size); }
    pos_type seekoff(off_type off,
                     std::ios_base::seekdir dir,
                     std::ios_base::openmode = std::ios_base::in) override
    {
        if (dir == std::ios_base::cur)
            gbump(static_cast<int>(off));
        else if (dir == std::ios_base::end)
            setg(eback(), egptr() + off, egptr());
        else
            setg(eback(), eback() + off, egptr());
        return gptr() - eback();
    }
    pos_type seekpos(pos_type sp, std::ios_base::openmode which) override
    {
        return seekoff(sp - pos_type(off_type(0)), std::ios_base::beg, which);
    }
};
} // namespace utils

namespace creds {
struct Credentials
{
    std::string access_key;
    std::string secret_key;
};
class Provider
{
  public:
    virtual ~Provider() = default;
    Credentials creds;
};
class StaticProvider : public Provider
{
  public:
    StaticProvider(std::string access_key,
                   std::string secret_key,
                   std::string session_token = {});
    ~StaticProvider() override;
};
} // namespace creds

namespace s3 {
struct BaseUrl
{
    bool https = true;
    std::string host;
    BaseUrl() = default;
    explicit BaseUrl(std::string host, bool https = true, std::string region = {});
    operator bool() const { return !host.empty(); }
};

struct Part
{
    unsigned int number = 0;
    std::string etag;
    size_t size = 0;
    Part() = default;
    Part(unsigned int n, std::string e)
      : number(n)
      , etag(std::move(e))
    {
    }
};

struct BaseArgs
{
    std::map<std::string, std::string> extra_headers;
    std::map<std::string, std::string> extra_query_params;
};
struct BucketArgs : BaseArgs
{
    std::string bucket;
    std::string region;
};
struct ObjectArgs : BucketArgs
{
    std::string object;
};
struct ListBucketsArgs : BaseArgs
{};
using BucketExistsArgs = BucketArgs;
using MakeBucketArgs = BucketArgs;
struct ObjectVersionArgs : ObjectArgs
{
    std::string version_id;
};
using StatObjectArgs = ObjectVersionArgs;
using RemoveObjectArgs = ObjectVersionArgs;
struct GetObjectArgs : ObjectVersionArgs
{
    http::DataFunction datafunc;
    void* userdata = nullptr;
};
struct PutObjectArgs : ObjectArgs
{
    std::istream& stream;
    long object_size = -1;
    size_t part_size = 0;
    PutObjectArgs(std::istream& stream, long object_size, long part_size);
};
using CreateMultipartUploadArgs = ObjectArgs;
struct UploadPartArgs : ObjectArgs
{
    std::string upload_id;
    unsigned int part_number = 0;
    std::string_view data;
};
struct CompleteMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
    std::list<Part> parts;
};
struct AbortMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
};
struct DeleteObject
{
    std::string name;
    std::string version_id;
};
struct RemoveObjectsArgs : BucketArgs
{
    std::function<bool(DeleteObject&)> func;
};

struct Response
{
    int status_code = 0;
    std::string err; // empty on success
    operator bool() const
    {
        return err.empty() && status_code >= 200 && status_code <= 299;
    }
    error::Error Error() const { return error::Error(err); }
    std::string etag;
};
struct ListBucketsResponse : Response
{
    std::list<std::string> buckets;
};
struct BucketExistsResponse : Response
{
    bool exist = false;
};
struct MakeBucketResponse : Response
{};
struct StatObjectResponse : Response
{
    size_t size = 0;
};
struct RemoveObjectResponse : Response
{};
struct AbortMultipartUploadResponse : Response
{};
struct GetObjectResponse : Response
{};
struct PutObjectResponse : Response
{};
struct CreateMultipartUploadResponse : Response
{
    std::string upload_id;
};
struct UploadPartResponse : Response
{};
struct CompleteMultipartUploadResponse : Response
{};
struct DeleteError : Response
{
    std::string object_name;
    std::string message;
};
class RemoveObjectsResult
{
    DeleteError last_;
    bool more_ = false;

  public:
    RemoveObjectsResult() = default;
    DeleteError& operator*() { return last_; }
    operator bool() const { return more_; }
    RemoveObjectsResult& operator++(int) { return *this; }
    RemoveObjectsResult& operator++() { return *this; }
};

class Client
{
    void* impl_;

  public:
    explicit Client(BaseUrl& base_url, creds::Provider* provider = nullptr);
    ~Client();
    Client(const Client&) = delete;
    Client& operator=(const Client&) = delete;

    ListBucketsResponse ListBuckets(ListBucketsArgs args = {});
    BucketExistsResponse BucketExists(BucketExistsArgs args);
    MakeBucketResponse MakeBucket(MakeBucketArgs args);
    StatObjectResponse StatObject(StatObjectArgs args);
    RemoveObjectResponse RemoveObject(RemoveObjectArgs args);
    RemoveObjectsResult RemoveObjects(RemoveObjectsArgs args);
    GetObjectResponse GetObject(GetObjectArgs args);
    PutObjectResponse PutObject(PutObjectArgs args);
    CreateMultipartUploadResponse CreateMultipartUpload(
      CreateMultipartUploadArgs args);
    UploadPartResponse UploadPart(UploadPartArgs args);
    CompleteMultipartUploadResponse CompleteMultipartUpload(
      CompleteMultipartUploadArgs args);
    AbortMultipartUploadResponse AbortMultipartUpload(
      AbortMultipartUploadArgs args);
};
} // namespace s3
} // namespace minio
