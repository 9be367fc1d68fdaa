// C26: the Python module's source on a stand-in for pybind11 (shim/pybind11). The harness plays the Python program;
// the C API is reached through wrappers that record what they are given (and pass it on, or answer by themselves).
#include "fake_s3.hh"
#include "runner.hh"
#include "spec.hh"

#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>

#include <filesystem>
#include <memory>

namespace py = pybind11;
extern unsigned g_hw_threads;

namespace {
enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel, TI = ZarrDimensionType_Time, OT = ZarrDimensionType_Other };
// what a stream was created with
struct Asked
{
    std::string path;
    std::optional<std::string> custom;
    std::optional<std::array<std::string, 4>> s3;
    std::optional<std::array<int, 4>> comp;
    std::vector<Dim> dims;
    bool multiscale = false;
    int dtype = -1, version = -1;
};
bool
operator==(const Dim& a, const Dim& b)
{
    return a.name == b.name && a.type == b.type && a.array == b.array && a.chunk == b.chunk && a.shard == b.shard;
}
std::string
show(const Asked& a)
{
    json j{ { "path", a.path }, { "multiscale", a.multiscale }, { "dtype", a.dtype }, { "version", a.version } };
    if (a.custom)
        j["custom"] = *a.custom;
    if (a.s3)
        j["s3"] = *a.s3;
    if (a.comp)
        j["comp"] = *a.comp;
    for (auto& d : a.dims)
        j["dims"].push_back({ d.name, d.type, d.array, d.chunk, d.shard });
    return j.dump();
}
bool through = false;     // calls go on to the library
int answer_create = 1;    // otherwise: 1 a stream, 0 none
int answer_append = 0;
std::vector<Asked> asked;
std::vector<std::string> appended;
int destroyed = 0, alive = 0;
std::string
text(const char* s)
{
    return s ? s : "(null)";
}
} // namespace

extern "C" ZarrStream* __real_ZarrStream_create(ZarrStreamSettings*);
extern "C" ZarrStatusCode __real_ZarrStream_append(ZarrStream*, const void*, size_t, size_t*);
extern "C" void __real_ZarrStream_destroy(ZarrStream*);
extern "C" ZarrStream*
__wrap_ZarrStream_create(ZarrStreamSettings* s)
{
    Asked a;
    a.path = text(s->store_path);
    if (s->custom_metadata)
        a.custom = s->custom_metadata;
    if (auto* q = s->s3_settings)
        a.s3 = { text(q->endpoint), text(q->bucket_name), text(q->access_key_id), text(q->secret_access_key) };
    if (auto* q = s->compression_settings)
        a.comp = { (int)q->compressor, (int)q->codec, (int)q->level, (int)q->shuffle };
    for (size_t i = 0; i < s->dimension_count; ++i) {
        auto& d = s->dimensions[i];
        a.dims.push_back({ text(d.name), (int)d.type, d.array_size_px, d.chunk_size_px, d.shard_size_chunks });
    }
    a.multiscale = s->multiscale;
    a.dtype = s->data_type;
    a.version = s->version;
    asked.push_back(a);
    if (through)
        return __real_ZarrStream_create(s);
    if (!answer_create)
        return nullptr;
    ++alive;
    return (ZarrStream*)malloc(1);
}
extern "C" ZarrStatusCode
__wrap_ZarrStream_append(ZarrStream* s, const void* p, size_t n, size_t* out)
{
    appended.emplace_back((const char*)p, n);
    if (through)
        return __real_ZarrStream_append(s, p, n, out);
    *out = answer_append ? n / 2 : n;
    return (ZarrStatusCode)answer_append;
}
extern "C" void
__wrap_ZarrStream_destroy(ZarrStream* s)
{
    ++destroyed;
    if (through)
        return __real_ZarrStream_destroy(s);
    --alive;
    free(s);
}

namespace {
py::module_&
mod()
{
    static py::module_* m = [] {
        auto* x = new py::module_;
        pybind11_stand_in_init(*x);
        return x;
    }();
    return *m;
}
using O = py::object;
using KW = std::map<std::string, O>;
py::type_info&
type(const std::string& n)
{
    auto it = mod().types.find(n);
    if (it == mod().types.end())
        throw std::runtime_error("the module has no class " + n);
    return *it->second;
}
py::type_info&
type_of(const O& o)
{
    for (auto& [n, t] : mod().types)
        if (t->type == std::get<py::instance>(*o.v).type)
            return *t;
    throw std::runtime_error("object of an unknown class");
}
O
make(const std::string& cls, const KW& k = {})
{
    py::kwargs kw;
    kw.m = k;
    return type(cls).init({}, kw);
}
O
get(const O& o, const std::string& name)
{
    return type_of(o).getters.at(name)({ o });
}
void
set(const O& o, const std::string& name, const O& x)
{
    type_of(o).setters.at(name)({ o, x });
}
O
call(const O& o, const std::string& name, py::args_t a = {})
{
    a.insert(a.begin(), o);
    return type_of(o).methods.at(name)(a);
}
O
I(__int128 n)
{
    return O(py::value(std::in_place_type<__int128>, n));
}
O
S(const std::string& s)
{
    return py::cast(s);
}
O
B(bool b)
{
    return py::cast(b);
}
// enumerators by name: the names are the interface
O
E(const std::string& cls, const std::string& name)
{
    return type(cls).values.at(name);
}
const char* const version_names[] = { nullptr, nullptr, "V2", "V3" };
const char* const dtype_names[] = { "UINT8", "UINT16", "UINT32", "UINT64", "INT8", "INT16", "INT32", "INT64", "FLOAT32", "FLOAT64" };
const char* const compressor_names[] = { "NONE", "BLOSC1" };
const char* const codec_names[] = { "NONE", "BLOSC_LZ4", "BLOSC_ZSTD" };
const char* const dim_names[] = { "SPACE", "CHANNEL", "TIME", "OTHER" };
const char* const level_names[] = { "DEBUG", "INFO", "WARNING", "ERROR", "NONE" };

// One field of a class: its name, the value meant, another value.
struct Field
{
    std::string name;
    O want, other;
};
// way 0: to the constructor; 1: to the property; 2: another value to the constructor, then the property; 3: property twice
O
build(const std::string& cls, const std::vector<Field>& f, uint64_t ways, bool backwards = false)
{
    KW k;
    std::vector<std::pair<std::string, O>> later;
    for (auto& x : f) {
        const int w = ways % 4;
        ways /= 4;
        if (w == 0)
            k[x.name] = x.want;
        if (w == 2)
            k[x.name] = x.other;
        if (w == 3)
            later.push_back({ x.name, x.other });
        if (w)
            later.push_back({ x.name, x.want });
    }
    // several assignments to the same property keep their order
    if (backwards)
        std::stable_sort(later.begin(), later.end(), [&](auto& a, auto& b) { return a.first > b.first; });
    O o = make(cls, k);
    for (auto& [n, v] : later)
        set(o, n, v);
    return o;
}
std::vector<Field>
fields(const std::array<std::string, 4>& s, const std::array<std::string, 4>& other)
{
    return { { "endpoint", S(s[0]), S(other[0]) }, { "bucket_name", S(s[1]), S(other[1]) }, { "access_key_id", S(s[2]), S(other[2]) }, { "secret_access_key", S(s[3]), S(other[3]) } };
}
std::vector<Field>
fields(const std::array<int, 4>& c)
{
    return { { "compressor", E("Compressor", compressor_names[c[0]]), E("Compressor", compressor_names[!c[0]]) },
             { "codec", E("CompressionCodec", codec_names[c[1]]), E("CompressionCodec", codec_names[(c[1] + 1) % 3]) },
             { "level", I(c[2]), I((c[2] + 3) % 256) },
             { "shuffle", I(c[3]), I((c[3] + 5) % 256) } };
}
std::vector<Field>
fields(const Dim& d)
{
    return { { "name", S(d.name), S("other") },
             { "kind", E("DimensionType", dim_names[d.type]), E("DimensionType", dim_names[(d.type + 1) % 4]) },
             { "array_size_px", I(d.array), I((uint32_t)(d.array + 7)) },
             { "chunk_size_px", I(d.chunk), I((uint32_t)(d.chunk + 9)) },
             { "shard_size_chunks", I(d.shard), I((uint32_t)(d.shard + 11)) } };
}
O
dims_object(const std::vector<Dim>& dims, uint64_t ways)
{
    O v = type("VectorDimension").init({}, {});
    for (auto& d : dims)
        call(v, "append", { build("Dimension", fields(d), ways) });
    return v;
}
// the settings object for `a`; ways has two bits for each of the eight fields
O
settings(const Asked& a, uint64_t ways, uint64_t inner = 0, bool backwards = false)
{
    const Asked b; // the other values
    O none;
    O s3 = a.s3 ? build("S3Settings", fields(*a.s3, { "e", "b", "k", "s" }), inner) : none;
    O comp = a.comp ? build("CompressionSettings", fields(*a.comp), inner) : none;
    std::vector<Field> f{ { "store_path", S(a.path), S("elsewhere") },
                          { "custom_metadata", a.custom ? S(*a.custom) : none, a.custom ? none : S("{\"x\":1}") },
                          { "s3", s3, a.s3 ? none : build("S3Settings", fields({ "1", "2", "3", "4" }, {}), 0) },
                          { "compression", comp, a.comp ? none : build("CompressionSettings", fields({ 1, 1, 1, 1 }), 0) },
                          { "dimensions", dims_object(a.dims, inner), dims_object({ { "q", OT, 4, 3, 2 } }, 0) },
                          { "multiscale", B(a.multiscale), B(!a.multiscale) },
                          { "data_type", E("DataType", dtype_names[a.dtype]), E("DataType", dtype_names[(a.dtype + 1) % 10]) },
                          { "version", E("ZarrVersion", version_names[a.version]), E("ZarrVersion", version_names[5 - a.version]) } };
    return build("StreamSettings", f, ways, backwards);
}
bool
same(const O& a, const O& b)
{
    if (a.v->index() != b.v->index())
        return false;
    if (auto* s = std::get_if<std::string>(a.v.get()))
        return *s == std::get<std::string>(*b.v);
    if (auto* s = std::get_if<__int128>(a.v.get()))
        return *s == std::get<__int128>(*b.v);
    if (auto* s = std::get_if<bool>(a.v.get()))
        return *s == std::get<bool>(*b.v);
    if (auto* s = std::get_if<py::instance>(a.v.get())) {
        auto& t = std::get<py::instance>(*b.v);
        // an enumerator
        return s->type == t.type && *(int*)s->p.get() == *(int*)t.p.get();
    }
    return a.is_none();
}
void
read_back(const O& o, const std::vector<Field>& f, Errs& e)
{
    for (auto& x : f)
        if (!same(get(o, x.name), x.want))
            e.push_back(type_of(o).name + "." + x.name + " does not read back as it was set");
}
// every setting can be read back
void
read_back(const O& s, const Asked& a, Errs& e)
{
    if (!same(get(s, "store_path"), S(a.path)) || !same(get(s, "multiscale"), B(a.multiscale)) || !same(get(s, "custom_metadata"), a.custom ? S(*a.custom) : O()) ||
        !same(get(s, "data_type"), E("DataType", dtype_names[a.dtype])) || !same(get(s, "version"), E("ZarrVersion", version_names[a.version])))
        e.push_back("StreamSettings does not read back as it was set");
    O s3 = get(s, "s3"), comp = get(s, "compression"), dims = get(s, "dimensions");
    if (s3.is_none() == a.s3.has_value() || comp.is_none() == a.comp.has_value())
        e.push_back("optional settings do not read back as they were set");
    else {
        if (a.s3)
            read_back(s3, fields(*a.s3, *a.s3), e);
        if (a.comp)
            read_back(comp, fields(*a.comp), e);
    }
    if (call(dims, "__len__").cast<size_t>() != a.dims.size())
        e.push_back("the number of dimensions does not read back");
    else
        for (size_t i = 0; i < a.dims.size(); ++i)
            read_back(call(dims, "__getitem__", { I(i) }), fields(a.dims[i]), e);
}
void
fresh()
{
    through = false;
    answer_create = 1;
    answer_append = 0;
    asked.clear();
    appended.clear();
    destroyed = alive = 0;
    mod();
}
// creates a stream from s, lets it go, and compares what arrived
void
arrives(const O& s, const Asked& a, Errs& e)
{
    asked.clear();
    destroyed = 0;
    const int before = alive;
    {
        O z = type("ZarrStream").init({ s }, {});
        if (!call(z, "is_active").cast<bool>())
            e.push_back("a new stream is not active");
        if (destroyed)
            e.push_back("the stream was destroyed while it was in use");
    }
    if (destroyed != 1 || alive != before)
        e.push_back("the stream was destroyed " + std::to_string(destroyed) + " times");
    if (asked.size() != 1)
        e.push_back(std::to_string(asked.size()) + " streams were created");
    else if (show(asked[0]) != show(a))
        e.push_back("asked for " + show(a) + ", the library got " + show(asked[0]));
}
Asked
base(int k)
{
    Asked a;
    a.path = k ? "/a/b c.zarr" : "s";
    a.dims = { { "t", TI, 0, 5, 2 }, { "c", CH, 3, 2, 1 }, { "y", SP, 48, 16, 3 }, { "x", SP, 64, 32, 1 } };
    a.dtype = k ? 8 : 1;
    a.version = k ? 3 : 2;
    a.multiscale = k;
    if (k != 2)
        a.custom = "{\"a\": [1, \"\xc3\xa9\"]}";
    if (k != 1)
        a.s3 = { "http://host:9000", "bucket", "key id", "secret/key" };
    if (k != 0)
        a.comp = { 1, 2, 9, 2 };
    return a;
}
template<typename F>
void
guarded(Report& r, F f)
{
    try {
        f();
    } catch (const std::exception& e) {
        r.errs.push_back(std::string("unexpected exception: ") + e.what());
    }
}
template<typename F>
bool
raises(F f)
{
    try {
        f();
        return false;
    } catch (const std::exception&) {
        PyErr_Clear();
        return true;
    }
}

// ------------------------------------------------------------------ arrays
struct Layout
{
    std::vector<int> shape, perm, step; // step 0: broadcast
};
// an array whose elements are all different, with exactly the memory it needs
std::shared_ptr<py::ndarray>
array(const Layout& l, int itemsize, std::string& want)
{
    auto a = std::make_shared<py::ndarray>();
    const size_t n = l.shape.size();
    a->itemsize = itemsize;
    a->shape.assign(l.shape.begin(), l.shape.end());
    a->strides.assign(n, 0);
    // perm[k] is the axis that varies k-th slowest in memory
    py::ssize_t block = itemsize, low = 0;
    for (size_t k = n; k-- > 0;) {
        const int ax = l.perm[k], st = l.step[ax];
        a->strides[ax] = block * st;
        if (st < 0 && l.shape[ax] > 0)
            low += block * st * (l.shape[ax] - 1);
        block *= st ? std::max(l.shape[ax], 1) * std::abs(st) : 1;
    }
    // bytes from the first to the last element
    py::ssize_t high = 0;
    for (size_t d = 0; d < n; ++d)
        if (a->strides[d] > 0 && l.shape[d] > 0)
            high += a->strides[d] * (l.shape[d] - 1);
    const size_t bytes = high - low + itemsize;
    std::shared_ptr<char[]> mem(new char[bytes]);
    for (size_t i = 0; i < bytes; ++i)
        mem[i] = (char)(i * 37 + i / 251 + 1);
    a->data = mem.get() - low;
    a->owner = std::shared_ptr<void>(mem, mem.get());
    want.clear();
    // row-major order by its definition
    std::function<void(size_t, char*)> go = [&](size_t d, char* p) {
        if (d == n)
            want.append(p, itemsize);
        else
            for (int i = 0; i < l.shape[d]; ++i)
                go(d + 1, p + i * a->strides[d]);
    };
    go(0, a->data);
    return a;
}
template<typename F>
void
each_layout(const std::vector<int>& shape, const std::vector<int>& steps, F f)
{
    Layout l{ shape };
    const size_t n = shape.size();
    for (size_t i = 0; i < n; ++i)
        l.perm.push_back(i);
    do {
        uint64_t total = 1;
        for (size_t i = 0; i < n; ++i)
            total *= steps.size();
        for (uint64_t c = 0; c < total; ++c) {
            l.step.clear();
            uint64_t x = c;
            for (size_t i = 0; i < n; ++i, x /= steps.size())
                l.step.push_back(steps[x % steps.size()]);
            f(l);
        }
    } while (std::next_permutation(l.perm.begin(), l.perm.end()));
}
} // namespace

CHECK_FN(C26)
{
    quiet_logs(true);
    // every way of stating every setting
    for (int k = 0; k < 3; ++k)
        for (bool backwards : { false, true })
            for (uint64_t hi = R.thorough ? 0 : 2 * k + backwards; hi < 256; hi += R.thorough ? 1 : 6)
                R.run({ { "settings", k }, { "ways", hi }, { "backwards", backwards } }, [&](Report& r) {
                    guarded(r, [&] {
                        fresh();
                        const Asked a = base(k);
                        for (uint64_t lo = 0; lo < 256 && r.errs.empty(); ++lo) {
                            const uint64_t ways = hi * 256 + lo;
                            O s = settings(a, ways, (lo * 7 + hi) % 1024, backwards);
                            read_back(s, a, r.errs);
                            arrives(s, a, r.errs);
                            ++r.n_exec;
                        }
                        r.n_states = 256;
                        r.transitions = 256 * 10;
                        r.outcome = "settings " + std::to_string(k);
                    });
                });
    // every way of stating the fields of the nested classes
    R.run({ { "nested", "ways" } }, [&](Report& r) {
        guarded(r, [&] {
            fresh();
            for (int k = 0; k < 3; ++k)
                for (uint64_t inner = 0; inner < 1024; ++inner) {
                    const Asked a = base(k);
                    O s = settings(a, 0, inner);
                    read_back(s, a, r.errs);
                    arrives(s, a, r.errs);
                    ++r.n_exec;
                }
            r.n_states = r.n_exec;
            r.transitions = 12 * r.n_exec;
            r.outcome = "nested";
        });
    });
    // every value of every setting
    const std::vector<std::string> texts{ "", " ", "a", "/p/q", "\xce\xbc\xf0\x9f\x98\x80", std::string(5000, 'x'), "a'b\"c\\", "{\"n\": null}" };
    const std::vector<uint32_t> sizes{ 0, 1, 2, 255, 256, 65535, 65536, 1u << 31, UINT32_MAX };
    std::vector<std::pair<std::string, std::function<void(Asked&)>>> vals;
    for (int v : { 2, 3 })
        vals.push_back({ "version " + std::to_string(v), [=](Asked& a) { a.version = v; } });
    for (int t = 0; t < 10; ++t)
        vals.push_back({ "type " + std::to_string(t), [=](Asked& a) { a.dtype = t; } });
    for (bool m : { false, true })
        vals.push_back({ "multiscale", [=](Asked& a) { a.multiscale = m; } });
    for (auto& t : texts) {
        vals.push_back({ "path", [=](Asked& a) { a.path = t; } });
        vals.push_back({ "custom", [=](Asked& a) { a.custom = t; } });
        for (int i = 0; i < 4; ++i)
            vals.push_back({ "s3", [=](Asked& a) {
                                if (!a.s3)
                                    a.s3 = { "e", "b", "k", "s" };
                                (*a.s3)[i] = t;
                            } });
        for (int i = 0; i < 4; ++i)
            vals.push_back({ "name", [=](Asked& a) { a.dims[i].name = t; } });
    }
    for (int i = 0; i < 256; ++i) {
        vals.push_back({ "level", [=](Asked& a) { a.comp = { i % 2, i % 3, i, 7 }; } });
        vals.push_back({ "shuffle", [=](Asked& a) { a.comp = { i % 2, i % 3, 7, i }; } });
    }
    for (auto x : sizes)
        for (int i = 0; i < 4; ++i) {
            vals.push_back({ "array", [=](Asked& a) { a.dims[i].array = x; } });
            vals.push_back({ "chunk", [=](Asked& a) { a.dims[i].chunk = x; } });
            vals.push_back({ "shard", [=](Asked& a) { a.dims[i].shard = x; } });
            vals.push_back({ "kind", [=](Asked& a) { a.dims[i].type = x % 4; } });
        }
    for (int n = 0; n <= 9; ++n)
        vals.push_back({ "dimensions", [=](Asked& a) {
                            a.dims.clear();
                            for (int i = 0; i < n; ++i)
                                a.dims.push_back({ "d" + std::to_string(i), i % 4, (uint32_t)i + 10, (uint32_t)i + 20, (uint32_t)i + 30 });
                        } });
    for (int k = 0; k < 3; ++k)
        R.run({ { "values", k } }, [&](Report& r) {
            guarded(r, [&] {
                fresh();
                for (auto& [what, f] : vals)
                    for (uint64_t ways : { 0ull, 0x5555ull, 0xaaaaull, 0xffffull }) {
                        Asked a = base(k);
                        f(a);
                        O s = settings(a, ways, ways % 1024);
                        read_back(s, a, r.errs);
                        arrives(s, a, r.errs);
                        for (auto& e : r.errs)
                            if (e.find(" [") == std::string::npos)
                                e += " [" + what + "]";
                        ++r.n_exec;
                    }
                r.n_states = vals.size();
                r.transitions = 12 * r.n_exec;
                r.outcome = "values";
            });
        });
    // the object last changed counts, not the one it was copied from; streams keep nothing of the settings
    R.run({ { "histories", "of settings" } }, [&](Report& r) {
        guarded(r, [&] {
            for (int k = 0; k < 3; ++k) {
                fresh();
                Asked a = base(k), b = base((k + 1) % 3);
                O s = settings(a, 0);
                arrives(s, a, r.errs);
                arrives(s, a, r.errs); // again
                O z = type("ZarrStream").init({ s }, {});
                set(s, "store_path", S("changed"));
                set(s, "custom_metadata", O());
                set(s, "s3", O());
                set(s, "compression", O());
                call(get(s, "dimensions"), "clear");
                a.path = "changed";
                a.custom.reset(), a.s3.reset(), a.comp.reset(), a.dims.clear();
                read_back(s, a, r.errs);
                arrives(s, a, r.errs);
                // dimensions are changed in place
                O d = get(s, "dimensions");
                for (auto& x : b.dims)
                    call(d, "append", { build("Dimension", fields(x), 0) });
                set(call(d, "__getitem__", { I(1) }), "chunk_size_px", I(77));
                a.dims = b.dims;
                a.dims[1].chunk = 77;
                read_back(s, a, r.errs);
                arrives(s, a, r.errs);
                r.n_exec += 5;
            }
            r.n_states = r.n_exec;
            r.transitions = 40;
            r.outcome = "histories";
        });
    });
    // values that do not fit are refused and change nothing
    R.run({ { "refused", "values" } }, [&](Report& r) {
        guarded(r, [&] {
            fresh();
            struct
            {
                const char *cls, *name;
                __int128 bad;
            } t[] = { { "Dimension", "array_size_px", (__int128)1 << 32 }, { "Dimension", "chunk_size_px", -1 }, { "Dimension", "chunk_size_px", (__int128)1 << 32 },
                      { "Dimension", "shard_size_chunks", (__int128)1 << 40 }, { "Dimension", "array_size_px", -5 }, { "Dimension", "shard_size_chunks", -1 },
                      { "CompressionSettings", "level", 256 }, { "CompressionSettings", "level", -1 }, { "CompressionSettings", "shuffle", 256 }, { "CompressionSettings", "shuffle", 257 } };
            for (auto& x : t) {
                O o = make(x.cls, { { x.name, I(3) } });
                if (!raises([&] { set(o, x.name, I(x.bad)); }))
                    r.errs.push_back(std::string(x.cls) + "." + x.name + " took a value that does not fit");
                if (!raises([&] { make(x.cls, { { x.name, I(x.bad) } }); }))
                    r.errs.push_back(std::string(x.cls) + "(" + x.name + ") took a value that does not fit");
                if (!same(get(o, x.name), I(3)))
                    r.errs.push_back(std::string(x.cls) + "." + x.name + " was changed by a value that does not fit");
                ++r.n_exec;
            }
            r.n_states = r.n_exec;
            r.transitions = 3 * r.n_exec;
            r.outcome = "refused";
        });
    });
    // failures become exceptions
    R.run({ { "failures", "raise" } }, [&](Report& r) {
        guarded(r, [&] {
            fresh();
            answer_create = 0;
            if (!raises([&] { type("ZarrStream").init({ settings(base(0), 0) }, {}); }))
                r.errs.push_back("a stream that was not created raised nothing");
            answer_create = 1;
            std::string want;
            for (int code = 0; code < ZarrStatusCodeCount; ++code) {
                O z = type("ZarrStream").init({ settings(base(0), 0) }, {});
                answer_append = code;
                const bool up = raises([&] { call(z, "append", { O(py::value(array({ { 2, 3 }, { 0, 1 }, { 1, 1 } }, 2, want))) }); });
                if (up != (code != 0))
                    r.errs.push_back("append with status " + std::to_string(code) + (up ? " raised" : " raised nothing"));
                ++r.n_exec;
            }
            if (alive || destroyed != ZarrStatusCodeCount)
                r.errs.push_back("streams were left or destroyed twice");
            for (int l = 0; l < ZarrLogLevelCount; ++l) {
                mod().functions.at("set_log_level")({ E("LogLevel", level_names[l]) });
                if (!same(mod().functions.at("get_log_level")({}), E("LogLevel", level_names[l])) || Zarr_get_log_level() != l)
                    r.errs.push_back(std::string("log level ") + level_names[l] + " is not the one that was set");
                ++r.n_exec;
            }
            quiet_logs(true);
            r.n_states = r.n_exec;
            r.transitions = 2 * r.n_exec;
            r.outcome = "failures";
        });
    });
    // arrays of every layout
    std::vector<std::vector<int>> shapes{ {} };
    for (size_t i = 0; i < shapes.size(); ++i)
        if (shapes[i].size() < (R.thorough ? 4 : 3))
            for (int s : { 1, 2, 3 }) {
                auto x = shapes[i];
                x.push_back(s);
                shapes.push_back(x);
            }
    for (auto& z : { std::vector<int>{ 0 }, { 0, 2 }, { 2, 0 }, { 2, 0, 3 } })
        shapes.push_back(z);
    shapes.push_back({ 2, 1, 2, 2 });
    shapes.push_back({ 3, 5, 7 });
    for (auto& shape : shapes)
        for (int itemsize : { 1, 2, 4, 8 })
            R.run({ { "array", shape }, { "itemsize", itemsize } }, [&](Report& r) {
                guarded(r, [&] {
                    fresh();
                    O z = type("ZarrStream").init({ settings(base(0), 0) }, {});
                    each_layout(shape, { 1, 2, -1, -3, 0 }, [&](const Layout& l) {
                        if (r.errs.size() > 2)
                            return;
                        std::string want, got;
                        appended.clear();
                        auto a = array(l, itemsize, want);
                        call(z, "append", { O(py::value(a)) });
                        for (auto& x : appended)
                            got += x;
                        if (got != want)
                            r.errs.push_back("array with strides " + json(a->strides).dump() + " was not stored in row-major order");
                        ++r.n_exec;
                    });
                    r.n_states = r.n_exec;
                    r.transitions = r.n_exec;
                    r.outcome = "array of " + std::to_string(shape.size()) + " dimensions";
                });
            });
    // through the library: the store is the one the C interface makes
    for (bool s3 : { false, true })
        for (int ver : { 2, 3 })
            for (int dt = 0; dt < 10; ++dt)
                for (int lay = 0; lay < 4; ++lay) {
                    Cfg c = make3(ver, 2, ver == 3 ? 2 : 1, dim("y", SP, 4, 2, 1), dim("x", SP, 6, 3, ver == 3 ? 2 : 1));
                    c.dtype = dt;
                    c.s3 = s3;
                    c.multiscale = dt % 2;
                    c.compressed = dt % 3 > 0;
                    c.codec = 1 + dt % 2;
                    c.level = dt;
                    c.shuffle = dt % 3;
                    c.has_custom = dt != 4;
                    c.custom = "{\"dt\": " + std::to_string(dt) + "}";
                    json d = to_json(c);
                    d["layout"] = lay;
                    R.run(d, [&](Report& r) {
                        guarded(r, [&] {
                            fresh();
                            through = true;
                            g_hw_threads = 2;
                            Settings st(c, s3 ? "s" : R.scratch + "/s");
                            Asked a;
                            a.path = st.path;
                            if (c.has_custom)
                                a.custom = c.custom;
                            if (c.s3)
                                a.s3 = { st.s3_text[0], st.s3_text[1], st.s3_text[2], st.s3_text[3] };
                            if (c.compressed)
                                a.comp = { 1, c.codec, c.level, c.shuffle };
                            a.dims = c.dims;
                            a.dtype = dt;
                            a.version = ver;
                            a.multiscale = c.multiscale;
                            // rows, columns, every other element, backwards
                            const Layout l = lay == 0   ? Layout{ { 5, 4, 6 }, { 0, 1, 2 }, { 1, 1, 1 } }
                                             : lay == 1 ? Layout{ { 5, 4, 6 }, { 2, 1, 0 }, { 1, 1, 1 } }
                                             : lay == 2 ? Layout{ { 5, 4, 6 }, { 0, 1, 2 }, { 1, 1, 2 } }
                                                        : Layout{ { 5, 4, 6 }, { 1, 0, 2 }, { -1, 1, -1 } };
                            std::string data;
                            auto arr = array(l, dtype_size(dt), data);
                            auto server = [&] {
                                fake_s3::reset();
                                fake_s3::serve_only();
                                fake_s3::server().buckets[S3_BUCKET];
                            };
                            auto snap = [&] { return s3 ? snapshot_s3(S3_BUCKET, "s") : snapshot_dir(st.path); };
                            server();
                            if (!run_frames(c, st.path, data).created)
                                r.errs.push_back("harness: no stream");
                            const Store want = snap();
                            std::filesystem::remove_all(st.path);
                            server();
                            O s = settings(a, 0x1b1b * (lay + 1));
                            {
                                O z = type("ZarrStream").init({ s }, {});
                                s = O();
                                O pa{ py::value(arr) };
                                arr.reset();
                                call(z, "append", { pa });
                                pa = O(); // the array is gone before the stream is
                            }
                            auto df = diff_stores(want, snap());
                            if (!df.empty())
                                r.errs.push_back(df);
                            through = false;
                            g_hw_threads = 1;
                            r.model_states.push_back(hash_str(d.dump()));
                            r.transitions = 12;
                            r.outcome = "store";
                        });
                    });
                }
    R.bound("three sets of values; each of the 8 stream settings stated in 4 ways (constructor, property, both with another value first, property twice) in all combinations (thorough: with each set and in two orders; quick: with one of them in one order); the fields of nested classes in all combinations of the 4 ways");
    R.bound("every enumerator, levels and shuffles 0-255, 9 sizes, 8 texts for every text, 0-9 dimensions; values that do not fit; every status of the library");
    R.bound("arrays of 0-3 (thorough: 4) dimensions of sizes 1-3 and 0, every order of the axes in memory, steps {1, 2, -1, -3, 0} per axis, items of 1, 2, 4, 8 bytes");
    R.bound("80 (x S3) configurations through the library, compared with the store made by the C interface");
}
