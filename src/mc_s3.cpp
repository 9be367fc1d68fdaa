// C08: the S3 connection pool, all schedules of borrowers and of uploads.
#include "mc/explore.hh"
#include "fake_s3.hh"
#include "s3.connection.hh"
#include "s3.sink.hh"

#include <memory>
#include <thread>

namespace {
using zarr::S3Connection;
using zarr::S3ConnectionPool;
struct Quiet
{
    Quiet() { mcrt_ignore(1); }
    ~Quiet() { mcrt_ignore(-1); }
};
volatile char g_tag[8];
void
hook(int phase, const void* client, const char* op, const std::string& key)
{
    // the request as such is one step on its object, the use of the client begins before it
    if (phase == 0)
        mcrt::user_point((uint64_t)client, true);
    else
        mcrt::user_point((uint64_t)client, true, mcrt::hash_bytes(key.data(), key.size()) | 1, true);
}
void
setup(std::vector<bool> valid = {})
{
    fake_s3::reset();
    fake_s3::server().buckets[S3_BUCKET];
    fake_s3::decide = nullptr;
    fake_s3::sched_hook = hook;
}
void
violations(Errs& errs)
{
    for (auto& v : fake_s3::server().violations)
        errs.push_back("S3 server: " + v);
}

// ------------------------------------------------------------ borrowers
struct Borrow
{
    int conns;
    std::vector<int> rounds;  // per thread
    int invalid = 0;          // connections that fail their first test
    int hold = 0;             // threads 0..hold-1 keep theirs until the last thread has got one
    bool use = false;         // a request while holding
    bool main_borrows = false;
    int main_holds = 0; // connections the main thread has when the others start; it returns them one by one
};
struct BRec
{
    const S3Connection* lent[16];
    int n_lent, max_lent;
    std::vector<std::string> errs;
} brec;

std::unique_ptr<S3Connection>
borrow(S3ConnectionPool& pool, int me, int conns)
{
    auto c = pool.get_connection();
    Quiet q;
    if (!c) {
        brec.errs.push_back("get_connection returned nothing");
        return c;
    }
    for (int i = 0; i < 16; ++i)
        if (brec.lent[i] == c.get())
            brec.errs.push_back("a connection was lent to two borrowers at once");
    brec.lent[me] = c.get();
    if (++brec.n_lent > conns)
        brec.errs.push_back("more connections lent than the pool has");
    return c;
}
void
give_back(S3ConnectionPool& pool, int me, std::unique_ptr<S3Connection>&& c)
{
    {
        Quiet q;
        brec.lent[me] = nullptr;
        --brec.n_lent;
    }
    if (c)
        pool.return_connection(std::move(c));
}
std::string
run_borrow(const Borrow& p, Errs& errs)
{
    setup();
    brec = BRec{};
    int nlist = 0, ninvalid = p.invalid;
    fake_s3::decide = [&](const fake_s3::Request& r) {
        if (r.op == "list" && ninvalid > 0) {
            --ninvalid;
            return fake_s3::Answer::Error;
        }
        return fake_s3::Answer::Ok;
    };
    const int usable = p.conns - p.invalid;
    std::vector<std::thread> ts;
    mcrt::begin();
    {
        S3ConnectionPool pool(p.conns, "http://x", "a", "s");
        std::vector<const S3Connection*> first;
        { // what the pool starts with
            std::vector<std::unique_ptr<S3Connection>> all;
            for (int i = 0; i < usable; ++i)
                all.push_back(pool.get_connection());
            for (auto& c : all)
                first.push_back(c.get());
            for (auto& c : all)
                pool.return_connection(std::move(c));
        }
        const int n = (int)p.rounds.size();
        std::mutex m;
        std::condition_variable cv;
        bool last_has_one = false;
        auto body = [&](int me) {
            for (int r = 0; r < p.rounds[me]; ++r) {
                auto c = borrow(pool, me, usable);
                if (p.use && c)
                    c->object_exists(S3_BUCKET, "some/object");
                else
                    mcrt::user_point((uint64_t)&g_tag[me], true);
                if (p.hold) {
                    std::unique_lock lock(m);
                    if (me < p.hold)
                        cv.wait(lock, [&] { return last_has_one; });
                    else if (me == n - 1) {
                        last_has_one = true;
                        cv.notify_all();
                    }
                }
                give_back(pool, me, std::move(c));
            }
        };
        std::vector<std::unique_ptr<S3Connection>> held;
        for (int i = 0; i < p.main_holds; ++i)
            held.push_back(borrow(pool, 8 + i, usable));
        for (int i = p.main_borrows ? 1 : 0; i < n; ++i)
            ts.emplace_back(body, i);
        for (int i = 0; i < p.main_holds; ++i)
            give_back(pool, 8 + i, std::move(held[i]));
        if (p.main_borrows)
            body(0);
        for (auto& t : ts)
            t.join();
        ts.clear();
        // nothing lost, nothing added: all can be borrowed again, and they are the same ones
        std::vector<std::unique_ptr<S3Connection>> all;
        for (int i = 0; i < usable; ++i)
            all.push_back(pool.get_connection());
        {
            Quiet q;
            std::set<const S3Connection*> a(first.begin(), first.end()), b;
            for (auto& c : all)
                b.insert(c.get());
            if (a != b)
                errs.push_back("the pool does not hold the connections it started with");
        }
        // one more request has to wait: the pool must not hold more than it started with
        bool got = false;
        std::thread extra([&] {
            auto c = pool.get_connection();
            {
                Quiet q;
                got = true;
                if (!all.empty() && all.back())
                    brec.errs.push_back("a connection was granted although all were lent out");
            }
            pool.return_connection(std::move(c));
        });
        mcrt::user_point((uint64_t)&g_tag[7], true);
        auto back = std::move(all.back());
        pool.return_connection(std::move(back));
        extra.join();
        for (auto& c : all)
            if (c)
                pool.return_connection(std::move(c));
    }
    mcrt::end();
    for (auto& e : brec.errs)
        errs.push_back(e);
    violations(errs);
    if (fake_s3::server().clients_alive)
        errs.push_back(std::to_string(fake_s3::server().clients_alive) + " connections leaked");
    return "ok";
}

// ------------------------------------------------------------ uploads
struct Up
{
    int conns;
    std::vector<size_t> sizes; // per uploader, one object each (multipart from 5 MiB on)
    int fail_obj = -1;         // requests of this uploader's object fail ...
    std::string fail_op;       // ... when they are this one
    fake_s3::Answer answer = fake_s3::Answer::Error;
    int rounds = 1;
};
std::string
run_up(const Up& p, Errs& errs)
{
    setup();
    const std::string bad = "obj/" + std::to_string(p.fail_obj);
    fake_s3::decide = [&](const fake_s3::Request& r) { return r.op == p.fail_op && r.object.compare(0, bad.size(), bad) == 0 ? p.answer : fake_s3::Answer::Ok; };
    const size_t n = p.sizes.size();
    std::vector<Bytes> data(n);
    for (size_t i = 0; i < n; ++i) {
        data[i].resize(p.sizes[i]);
        for (size_t k = 0; k < p.sizes[i]; ++k)
            data[i][k] = (char)(k * 7 + i * 31 + (k >> 12));
    }
    std::vector<int> ok(n * p.rounds, -1);
    mcrt::begin();
    {
        auto pool = std::make_shared<S3ConnectionPool>(p.conns, "http://x", "a", "s");
        std::vector<std::thread> ts;
        for (size_t i = 0; i < n; ++i)
            ts.emplace_back([&, i] {
                for (int r = 0; r < p.rounds; ++r) {
                    bool good = true;
                    try {
                        std::unique_ptr<zarr::Sink> s =
                          std::make_unique<zarr::S3Sink>(S3_BUCKET, "obj/" + std::to_string(i) + "/" + std::to_string(r), pool);
                        good = s->write(0, std::span((const std::byte*)data[i].data(), data[i].size()));
                        good = zarr::finalize_sink(std::move(s)) && good;
                    } catch (const std::exception&) {
                        good = false;
                    }
                    Quiet q;
                    ok[i * p.rounds + r] = good;
                }
            });
        for (auto& t : ts)
            t.join();
        // nothing lost
        std::vector<std::unique_ptr<S3Connection>> all;
        for (int i = 0; i < p.conns; ++i)
            all.push_back(pool->get_connection());
        for (auto& c : all)
            pool->return_connection(std::move(c));
    }
    mcrt::end();
    violations(errs);
    auto& objs = fake_s3::server().buckets[S3_BUCKET];
    for (size_t i = 0; i < n; ++i)
        for (int r = 0; r < p.rounds; ++r) {
            const std::string key = "obj/" + std::to_string(i) + "/" + std::to_string(r);
            const bool want = (int)i != p.fail_obj;
            if (ok[i * p.rounds + r] != (int)want)
                errs.push_back("upload of " + key + " reported " + (ok[i * p.rounds + r] ? "success" : "failure"));
            const bool there = objs.count(key) > 0;
            if (want && (!there || objs[key] != data[i]))
                errs.push_back("object " + key + (there ? " has wrong content" : " is missing"));
            if (!want && there)
                errs.push_back("object " + key + " exists although its upload failed");
        }
    return "ok";
}
} // namespace

CHECK_FN(C08)
{
    quiet_logs(true);
    std::vector<Borrow> bs = {
        { 1, { 1, 1 } },
        { 1, { 2, 2 } },
        { 1, { 1, 1, 1 } },
        { 2, { 1, 1, 1 } },
        { 2, { 2, 1, 1 } },
        { 2, { 2, 2 } },
        { 2, { 1, 1 }, 1 },
        { 3, { 1, 1, 1 }, 1 },
        { 2, { 1, 1 }, 0, 1 },       // both must be able to hold one at the same time
        { 2, { 1, 1, 1 }, 0, 1 },    // one is kept: the other one goes round
        { 3, { 1, 1, 1 }, 0, 2 },
        { 1, { 1, 1 }, 0, 0, true },
        { 2, { 1, 1, 1 }, 0, 0, true },
        { 1, { 1, 1 }, 0, 0, false, true },
        { 2, { 2, 2, 1 }, 0, 0, false, true },
        { 2, { 1, 1 }, 0, 0, false, false, 2 },
        { 2, { 1, 1 }, 0, 1, false, false, 2 },
        { 2, { 1, 1, 1 }, 0, 0, false, false, 2 },
        { 3, { 1, 1, 1 }, 0, 0, false, false, 3 },
    };
    if (R.thorough) {
        bs.push_back({ 1, { 2, 2, 2 } });
        bs.push_back({ 2, { 2, 2, 2 } });
        bs.push_back({ 3, { 2, 2, 1, 1 } });
        bs.push_back({ 2, { 1, 1, 1, 1 } });
        bs.push_back({ 3, { 1, 1, 1, 1 }, 0, 2 });
        bs.push_back({ 2, { 2, 1, 1 }, 0, 0, true });
        bs.push_back({ 1, { 1, 1, 1, 1 } });
    }
    R.bound("pools of 1-3 connections (some unusable), 2-3 borrowers (thorough: 4), 1-2 rounds each, with requests while holding, borrowers that keep theirs "
            "until another has got one; 2-3 concurrent uploads of single and multipart objects over 1-2 connections, with every kind of request failing");
    R.bound("every schedule with at most 3 deviations (uploads: 2) from each default schedule; deeper, mostly without bound, while time permits");
    for (auto& b : bs)
        for (bool spurious : { false, true }) {
            if (spurious && !R.thorough && b.rounds.size() > 2)
                continue;
            json d = { { "conns", b.conns }, { "rounds", b.rounds }, { "invalid", b.invalid }, { "hold", b.hold },
                       { "use", b.use },     { "main", b.main_borrows }, { "main_holds", b.main_holds }, { "spurious", spurious } };
            mcx::Opts o;
            o.bound = R.thorough ? 4 : 3;
            o.secs = R.thorough ? 20 : 0.5;
            o.spurious = spurious;
            if (spurious)
                o.max_bound = o.bound;
            mcx::explore(R, d, o, [b](Errs& e, const std::string&) { return run_borrow(b, e); }, R.thorough ? 7 : 1);
        }
    using fake_s3::Answer;
    std::vector<Up> us = {
        { 1, { 10, 20 } },
        { 2, { 10, 20 } },
        { 1, { 10, 20, 30 } },
        { 2, { 10, 20, 30 } },
        { 1, { 10, 20 }, 0, "put" },
        { 1, { 10, 20 }, 0, "put", Answer::EmptyEtag },
        { 2, { 10, 20, 10 }, 1, "put" },
        { 1, { 10, 20 }, -1, "", Answer::Ok, 2 },
        { 1, { (5 << 20) + 5, 10 } },
        { 1, { (5 << 20) + 5, (5 << 20) + 9 } },
        { 1, { (5 << 20) + 5, 10 }, 0, "create_mp" },
        { 1, { (5 << 20) + 5, 10 }, 0, "upload_part" },
        { 1, { (5 << 20) + 5, 10 }, 0, "upload_part", Answer::EmptyEtag },
        { 1, { (5 << 20) + 5, 10 }, 0, "complete_mp" },
    };
    if (R.thorough) {
        us.push_back({ 2, { (5 << 20) + 5, (5 << 20) + 9, 10 } });
        us.push_back({ 2, { 10, 20, 30 }, 0, "put", Answer::Error, 2 });
    }
    for (auto& u : us) {
        bool big = false;
        for (size_t s : u.sizes)
            big |= s > 1000;
        json d = { { "uploads", u.sizes }, { "conns", u.conns }, { "fail", u.fail_obj }, { "op", u.fail_op }, { "answer", (int)u.answer }, { "rounds", u.rounds } };
        mcx::Opts o;
        o.bound = R.thorough ? 3 : big ? 1 : 2;
        o.secs = R.thorough ? 20 : 0.5;
        mcx::explore(R, d, o, [u](Errs& e, const std::string&) { return run_up(u, e); }, R.thorough ? 7 : 1);
    }
}
