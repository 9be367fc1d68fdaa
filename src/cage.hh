// Memory of the caller's in pages whose protection the harness controls.
#pragma once
#include "cfg.hh"

#include <memory>
#include <sys/mman.h>

// A block of bytes that touches an unmapped page on one side.
class Block
{
    static constexpr size_t PG = 4096;
    char* base;
    size_t pages;

  public:
    char* p;
    Block(const void* data, size_t n, bool at_end, size_t align = 1)
    {
        pages = (n + PG - 1) / PG + (n == 0);
        base = (char*)mmap(nullptr, (pages + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED)
            abort();
        char* const b = base + PG;
        protect(PROT_READ | PROT_WRITE);
        p = at_end ? b + (pages * PG - n) / align * align : b;
        if (n)
            memcpy(p, data, n);
    }
    Block(const Block&) = delete;
    ~Block() { munmap(base, (pages + 2) * PG); }
    void protect(int how)
    {
        if (mprotect(base + PG, pages * PG, how))
            abort();
    }
};

// The settings of a configuration, each object in a block of its own.
struct Caged
{
    std::vector<std::unique_ptr<Block>> all;
    ZarrStreamSettings* s;
    Caged(const Cfg& c, const std::string& path, bool at_end)
    {
        Settings t(c, path);
        auto put = [&](const void* d, size_t n, size_t align) {
            all.push_back(std::make_unique<Block>(d, n, at_end, align));
            return all.back()->p;
        };
        auto str = [&](const char*& q) {
            if (q)
                q = put(q, strlen(q) + 1, 1);
        };
        for (auto& d : t.dims)
            str(d.name);
        str(t.s.store_path);
        str(t.s.custom_metadata);
        t.s.dimensions = (ZarrDimensionProperties*)put(t.dims.data(), t.dims.size() * sizeof t.dims[0], alignof(ZarrDimensionProperties));
        if (t.s.compression_settings)
            t.s.compression_settings = (ZarrCompressionSettings*)put(&t.comp, sizeof t.comp, alignof(ZarrCompressionSettings));
        if (t.s.s3_settings) {
            str(t.s3.endpoint);
            str(t.s3.bucket_name);
            str(t.s3.access_key_id);
            str(t.s3.secret_access_key);
            t.s.s3_settings = (ZarrS3Settings*)put(&t.s3, sizeof t.s3, alignof(ZarrS3Settings));
        }
        s = (ZarrStreamSettings*)put(&t.s, sizeof t.s, alignof(ZarrStreamSettings));
    }
    void protect(int how)
    {
        for (auto& b : all)
            b->protect(how);
    }
};
