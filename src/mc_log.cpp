// C20: the logger under all schedules of threads that log and change the level.
#include "mc/explore.hh"
#include "logger.hh"

#include <thread>

namespace {
struct Quiet
{
    Quiet() { mcrt_ignore(1); }
    ~Quiet() { mcrt_ignore(-1); }
};
struct Act
{
    char kind; // 'l' log, 's' set, 'g' get
    int level; // of the message or to set
    int msg;   // which text
};
struct Prog
{
    int initial;
    std::vector<std::vector<Act>> threads; // the first one is the main thread
};
std::string captured[3];
void
capture(int fd, const char* p, size_t n)
{
    Quiet q;
    captured[fd].append(p, n);
}
const std::string long_text(3000, 'L');
constexpr int NMSG = 5;
// The text names thread and action; every log call of the library goes through these macros.
std::string
say(int level, int msg, const std::string& tag)
{
#define SAY(M)                                                                                                                                                 \
    switch (msg) {                                                                                                                                             \
        case 0:                                                                                                                                                \
            return M("<", tag, ">");                                                                                                                           \
        case 1:                                                                                                                                                \
            return M("<", tag, " number ", 42, " and ", 2.5, " ", true, ">");                                                                                  \
        case 2:                                                                                                                                                \
            return M("<", tag, " ", long_text, ">");                                                                                                           \
        case 3:                                                                                                                                                \
            return M("<" + tag + ">");                                                                                                                         \
        default:                                                                                                                                               \
            return M("<", tag, " %s %d %n \\ ", 'c', std::string_view(" view"), ">");                                                                          \
    }
    switch (level) {
        case 0:
            SAY(LOG_DEBUG)
        case 1:
            SAY(LOG_INFO)
        case 2:
            SAY(LOG_WARNING)
        default:
            SAY(LOG_ERROR)
    }
}
std::string
text_of(int msg, const std::string& tag)
{
    switch (msg) {
        case 1:
            return "<" + tag + " number 42 and 2.5 1>";
        case 2:
            return "<" + tag + " " + long_text + ">";
        case 0:
        case 3:
            return "<" + tag + ">";
        default:
            return "<" + tag + " %s %d %n \\ c view>";
    }
}
std::string
tag_of(int t, int i)
{
    return std::string("T") + char('a' + t) + char('a' + i / 20) + char('a' + i % 20);
}
std::string
shape(std::string s)
{
    for (auto& c : s)
        if (c >= '0' && c <= '9')
            c = '0';
    return s;
}
std::vector<std::string>
lines_of(const std::string& s, std::string& rest)
{
    std::vector<std::string> v;
    size_t i = 0;
    while (true) {
        size_t e = s.find('\n', i);
        if (e == std::string::npos)
            break;
        v.push_back(s.substr(i, e - i));
        i = e + 1;
    }
    rest = s.substr(i);
    return v;
}
std::string prefix[4][NMSG]; // what precedes the text, with digits made zeros

std::string
run(const Prog& p, Errs& errs)
{
    for (auto& c : captured)
        c.clear();
    mcrt::output = capture;
    // learn what a line looks like, one at a time
    static std::vector<std::string> got;
    std::vector<int> results(64, -1);
    mcrt::begin();
    if (Zarr_set_log_level(ZarrLogLevel_Debug) != ZarrStatusCode_Success) {
        Quiet q;
        errs.push_back("cannot set the level");
    }
    {
        for (int l = 0; l < 4; ++l) {
            for (auto& c : captured)
                c.clear();
            say(l, 0, "ref");
            Quiet q;
            const std::string &own = captured[l == 3 ? 2 : 1], &other = captured[l == 3 ? 1 : 2];
            const std::string want = text_of(0, "ref") + "\n";
            if (own.size() < want.size() || own.substr(own.size() - want.size()) != want)
                errs.push_back("level " + std::to_string(l) + ": the message was not written as a line to its stream: '" + own + "'");
            else
                for (int m = 0; m < NMSG; ++m)
                    prefix[l][m] = shape(own.substr(0, own.size() - want.size()));
            if (!other.empty())
                errs.push_back("level " + std::to_string(l) + ": written to the wrong stream");
        }
    }
    Zarr_set_log_level((ZarrLogLevel)p.initial);
    {
        Quiet q;
        for (auto& c : captured)
            c.clear();
    }
    std::vector<std::vector<int>> seen(p.threads.size());
    auto body = [&](int t) {
        for (size_t i = 0; i < p.threads[t].size(); ++i) {
            const Act& a = p.threads[t][i];
            int r = 0;
            if (a.kind == 'l')
                say(a.level, a.msg, tag_of(t, (int)i));
            else if (a.kind == 's')
                r = Zarr_set_log_level((ZarrLogLevel)a.level);
            else
                r = Zarr_get_log_level();
            Quiet q;
            seen[t].push_back(r);
        }
    };
    {
        std::vector<std::thread> ts;
        for (size_t t = 1; t < p.threads.size(); ++t)
            ts.emplace_back(body, (int)t);
        body(0);
        for (auto& t : ts)
            t.join();
    }
    const int last = Zarr_get_log_level();
    mcrt::end();
    mcrt::output = nullptr;

    // levels that may be in force for an action of thread t
    auto valid = [](int l) { return l >= 0 && l <= 4; };
    auto possible = [&](int t, size_t i) {
        std::set<int> s;
        int own = p.initial;
        for (size_t k = 0; k < i; ++k)
            if (p.threads[t][k].kind == 's' && valid(p.threads[t][k].level))
                own = p.threads[t][k].level;
        s.insert(own);
        for (size_t u = 0; u < p.threads.size(); ++u)
            if ((int)u != t)
                for (auto& a : p.threads[u])
                    if (a.kind == 's' && valid(a.level))
                        s.insert(a.level);
        return s;
    };
    std::multiset<std::string> expect_must[3], expect_may[3];
    for (size_t t = 0; t < p.threads.size(); ++t)
        for (size_t i = 0; i < p.threads[t].size(); ++i) {
            const Act& a = p.threads[t][i];
            const auto lv = possible((int)t, i);
            if (a.kind == 'l') {
                bool all = true, any = false;
                for (int l : lv)
                    (a.level >= l ? any : all) = a.level >= l;
                const std::string line = prefix[a.level][0] + "|" + text_of(a.msg, tag_of((int)t, (int)i));
                const int fd = a.level == 3 ? 2 : 1;
                if (all)
                    expect_must[fd].insert(line);
                else if (any)
                    expect_may[fd].insert(line);
            } else if (a.kind == 's') {
                const int want = valid(a.level) ? ZarrStatusCode_Success : ZarrStatusCode_InvalidArgument;
                if (seen[t][i] != want)
                    errs.push_back("setting level " + std::to_string(a.level) + " returned " + std::to_string(seen[t][i]));
            } else if (!lv.count(seen[t][i]))
                errs.push_back("read level " + std::to_string(seen[t][i]) + ", which nobody had set");
        }
    std::string out;
    for (int fd = 1; fd <= 2; ++fd) {
        std::string rest;
        for (auto& l : lines_of(captured[fd], rest)) {
            const size_t at = l.find('<');
            if (at == std::string::npos) {
                errs.push_back("stray line: '" + l.substr(0, 200) + "'");
                continue;
            }
            // the line number differs between the call sites
            auto norm = [](std::string s) {
                std::string r;
                for (char c : shape(s))
                    if (!(c == '0' && !r.empty() && r.back() == '0'))
                        r += c;
                return r;
            };
            const std::string text = l.substr(at), pre = norm(l.substr(0, at));
            auto take = [&](std::multiset<std::string>& s) {
                for (auto it = s.begin(); it != s.end(); ++it) {
                    const size_t bar = it->find('|');
                    if (it->substr(bar + 1) == text && norm(it->substr(0, bar)) == pre) {
                        s.erase(it);
                        return true;
                    }
                }
                return false;
            };
            if (!take(expect_must[fd]) && !take(expect_may[fd]))
                errs.push_back(std::string(fd == 1 ? "stdout" : "stderr") + " has a line that is broken, repeated or below the level: '" + l.substr(0, 200) + "'");
            out += (fd == 1 ? "o" : "e") + text.substr(1, 4);
        }
        if (!rest.empty())
            errs.push_back("unfinished line: '" + rest.substr(0, 200) + "'");
        for (auto& e : expect_must[fd])
            errs.push_back("message missing: '" + e.substr(0, 200) + "'");
    }
    std::set<int> fin;
    for (size_t u = 0; u < p.threads.size(); ++u) {
        int l = -1;
        for (auto& a : p.threads[u])
            if (a.kind == 's' && valid(a.level))
                l = a.level;
        if (l >= 0)
            fin.insert(l);
    }
    if (fin.empty())
        fin.insert(p.initial);
    if (!fin.count(last))
        errs.push_back("the level at the end is " + std::to_string(last));
    return out + std::to_string(last);
}
} // namespace

CHECK_FN(C20)
{
    R.bound("one thread: every level in force x every message level x 5 message forms, after every pair of level changes (valid and invalid)");
    R.bound("2-3 threads that log 1-2 messages each (all streams, long and formatted ones), set and read the level; every schedule with at most 3 deviations, deeper while time permits");
    // one thread, sequences
    for (int a = -1; a <= 6; ++a) {
        std::vector<std::vector<Act>> seqs;
        Prog p{ 1, { {} } };
        for (int b = -1; b <= 6; ++b) {
            p.threads[0].push_back({ 's', a, 0 });
            p.threads[0].push_back({ 'g', 0, 0 });
            for (int l = 0; l < 4; ++l)
                p.threads[0].push_back({ 'l', l, (a + b + l + 2) % NMSG });
            p.threads[0].push_back({ 's', b, 0 });
            p.threads[0].push_back({ 'g', 0, 0 });
            for (int l = 0; l < 4; ++l)
                p.threads[0].push_back({ 'l', l, l % NMSG });
        }
        for (int init = 0; init < 5; ++init) {
            p.initial = init;
            json d = { { "single", a }, { "initial", init } };
            mcx::Opts o;
            o.bound = 0;
            mcx::explore(R, d, o, [p](Errs& e, const std::string&) { return run(p, e); }, 1);
        }
    }
    std::vector<Prog> ps;
    auto L = [](int l, int m) { return Act{ 'l', l, m }; };
    auto S = [](int l) { return Act{ 's', l, 0 }; };
    const Act G{ 'g', 0, 0 };
    ps.push_back({ 0, { { L(1, 0) }, { L(1, 1) } } });
    ps.push_back({ 0, { { L(1, 0) }, { L(3, 1) } } });
    ps.push_back({ 0, { { L(3, 2) }, { L(3, 4) } } });
    ps.push_back({ 0, { { L(0, 2), L(3, 3) }, { L(2, 1), L(3, 0) } } });
    ps.push_back({ 1, { { L(1, 0) }, { S(3) } } });
    ps.push_back({ 3, { { L(1, 0), L(3, 0) }, { S(0), G } } });
    ps.push_back({ 1, { { S(2), L(1, 0), G }, { S(0), L(2, 1), G } } });
    ps.push_back({ 4, { { L(3, 0) }, { L(3, 0) }, { S(1) } } });
    ps.push_back({ 0, { { L(1, 0) }, { L(1, 1) }, { L(1, 4) } } });
    ps.push_back({ 0, { { L(1, 0) }, { L(3, 1) }, { S(4), S(7), G } } });
    ps.push_back({ 2, { { G, G }, { S(0), S(3) }, { S(1) } } });
    ps.push_back({ 0, { {}, { L(1, 0), L(3, 0) }, { L(3, 1), L(1, 1) } } });
    for (auto& p : ps) {
        json d = { { "initial", p.initial } };
        for (auto& t : p.threads) {
            std::string s;
            for (auto& a : t)
                s += std::string(1, a.kind) + std::to_string(a.level) + std::to_string(a.msg) + " ";
            d["threads"].push_back(s);
        }
        mcx::Opts o;
        o.bound = R.thorough ? 4 : 3;
        o.secs = R.thorough ? 20 : 1;
        mcx::explore(R, d, o, [p](Errs& e, const std::string&) { return run(p, e); }, R.thorough ? 7 : 3);
    }
}
