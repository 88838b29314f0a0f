#include <cerrno>
#include <cfenv>
#include <cstdlib>
#include <ctime>
#include <sys/time.h>
#include "../apifw.hpp"
const char* const PROP_ID = "C26";
// Everything around a call that isn't its argument differs from call to call:
// errno, the rounding mode, and what the environment, the clocks and the
// random number generators say (if the library asks them).
static unsigned world;
static bool inside;
static uint64_t asked;
static void enter_world()
{
    static const int ERR[] = {0, ERANGE, EILSEQ, EINVAL, ENOMEM, EDOM, 12345};
    static const int ROUND[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    ++world;
    fesetround(ROUND[world % 4]);
    if (world % 3 == 1) feraiseexcept(FE_ALL_EXCEPT); else feclearexcept(FE_ALL_EXCEPT);
    errno = ERR[world % 7];
    inside = true;
    EV("worlds");
}
static void leave_world()
{
    inside = false;
    fesetround(FE_TONEAREST);
    feclearexcept(FE_ALL_EXCEPT);
}
extern "C"
{
    static long other_long() { EV("asked-for-something-else"); return long((++asked + world) * 0x9E3779B97F4A7C15u >> 20); }
    static char* other_env() { EV("asked-for-something-else"); static const char* const V[] = {nullptr, "", "1", "0", "C", "tr_TR.UTF-8", "-1"}; return const_cast<char*>(V[world % 7]); }
    char* __real_getenv(const char*);
    char* __wrap_getenv(const char* n) { return inside ? other_env() : __real_getenv(n); }
    char* __real_secure_getenv(const char*);
    char* __wrap_secure_getenv(const char* n) { return inside ? other_env() : __real_secure_getenv(n); }
    int __real_rand();
    int __wrap_rand() { return inside ? int(other_long() & RAND_MAX) : __real_rand(); }
    long __real_random();
    long __wrap_random() { return inside ? other_long() & 0x7FFFFFFF : __real_random(); }
    time_t __real_time(time_t*);
    time_t __wrap_time(time_t* t) { if (!inside) return __real_time(t); auto r = time_t(other_long() & 0xFFFFFFFF); if (t) *t = r; return r; }
    clock_t __real_clock();
    clock_t __wrap_clock() { return inside ? clock_t(other_long() & 0xFFFFFFFF) : __real_clock(); }
    int __real_clock_gettime(clockid_t, timespec*);
    int __wrap_clock_gettime(clockid_t c, timespec* t) { if (!inside) return __real_clock_gettime(c, t); t->tv_sec = other_long() & 0xFFFFFFFF; t->tv_nsec = other_long() & 0x1FFFFFFF; return 0; }
    int __real_gettimeofday(timeval*, void*);
    int __wrap_gettimeofday(timeval* t, void* z) { if (!inside) return __real_gettimeofday(t, z); t->tv_sec = other_long() & 0xFFFFFFFF; t->tv_usec = other_long() & 0x7FFFF; return 0; }
    int __real_sched_getcpu();
    int __wrap_sched_getcpu() { return inside ? int(other_long() & 7) : __real_sched_getcpu(); }
    // std::chrono::system_clock::now, std::chrono::steady_clock::now
    long __real__ZNSt6chrono3_V212system_clock3nowEv();
    long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return inside ? other_long() : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
    long __real__ZNSt6chrono3_V212steady_clock3nowEv();
    long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return inside ? other_long() : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
}
void prop_init()
{
    uni::load();
    apifw::on_enter = enter_world;
    apifw::on_leave = leave_world;
    fw::require("worlds");
    for (auto n : {"repeated", "after-exception", "after-memory-failure", "same-address-other-content", "other-alignment", "after-other-input", "prefix-at-same-address", "null-view", "overlapping-arguments"}) fw::require(n);
}
// Operations on inputs that are alike, in changing order and places; every
// call must give the same result each time.
struct At // an input at a given place of an arena
{
    api::View v;
    ys::CodepointSet set;
};
static char arena[3][1 << 15];
static void place(At& x, const api::Args& a, unsigned shift)
{
    x.set = {};
    api::make_set(a, x.set);
    auto put = [&](int i, string_view s) { memset(arena[i], 0x5A ^ int(shift), std::min(sizeof arena[i], s.size() + 64)); if (!s.empty()) memcpy(arena[i] + shift, s.data(), s.size()); return string_view(arena[i] + shift, s.size()); };
    static char32_t lists[4096];
    auto list = a.list;
    if (list.size() > 4000) list.resize(4000);
    std::copy(list.begin(), list.end(), lists + shift);
    lists[shift + list.size()] = U'a';
    x.v = {put(0, a.s), put(1, a.c), put(2, a.to), std::u32string_view(lists + shift, list.size()), &x.set, &a};
}
static apifw::Outcome run_at(size_t op, const At& x)
{
    // (apifw::run wants a Placed)
    struct Fake { apifw::Placed p; explicit Fake(const api::Args& a) : p(a) {} };
    auto& o = api::ops()[op];
    apifw::Outcome r;
    api::Sink sink;
    sink.enter = enter_world;
    sink.leave = leave_world;
    fw::cur_fn = o.name;
    ++fw::evaluations;
    try { o.f(x.v, sink); r.out.swap(sink.out); }
    catch (...) { r.kind = fw::classify_exception(o.name); }
    if (sink.changed || sink.outside) FAIL(string("outside:") + o.name, string(o.name) + " with " + api::show(*x.v.a, apifw::esc2));
    return r;
}
void prop_case(Src& src)
{
    auto n = api::ops().size();
    std::vector<api::Args> as;
    as.push_back(gen::args(src));
    if (as[0].s.size() > 4000) { as[0].s.resize(4000); as[0].off = std::min<size_t>(as[0].off, 4000); }
    // Others of the same length, with other contents; a prefix; something else
    auto b = as[0];
    for (auto k = 1 + src.below(3); k && !b.s.empty(); --k) b.s[src.below(uint32_t(b.s.size()))] = src.chance(1, 2) ? char(src.u8()) : "aA\n\xCC\x80\\"[src.below(6)];
    if (src.chance(1, 2) && !b.c.empty()) b.c[src.below(uint32_t(b.c.size()))] ^= char(1 << src.below(8));
    if (src.chance(1, 2)) b.cp = gen::cp(src, b.cp);
    if (src.chance(1, 2) && !b.list.empty()) b.list[0] = char32_t(gen::cp(src, b.list[0]));
    as.push_back(b);
    b = as[0];
    if (!b.s.empty()) b.s.resize(src.below(uint32_t(b.s.size())));
    b.off = std::min(b.off, b.s.size());
    b.i = gen::index(src, b.s.size());
    as.push_back(b);
    as.push_back(gen::args(src));
    if (as[3].s.size() > 4000) { as[3].s.resize(4000); as[3].off = std::min<size_t>(as[3].off, 4000); }
    if (src.chance(1, 4)) as[3].off = as[0].off <= as[3].s.size() ? as[0].off : as[3].s.size();
    for (auto& a : as) for (auto* t : {&a.c, &a.to}) if (t->size() > 400) t->resize(400);

    // The references: each input in blocks of its own.
    std::vector<size_t> chosen;
    auto first = src.below(uint32_t(n));
    for (size_t k = 0; k < 24; ++k) chosen.push_back((first + k * 37) % n);
    std::vector<std::vector<apifw::Outcome>> ref(as.size());
    for (size_t i = 0; i < as.size(); ++i)
    {
        apifw::Placed p(as[i]);
        for (auto op : chosen) ref[i].push_back(apifw::run(op, p));
    }
    At x;
    auto check = [&](size_t i, size_t k, const apifw::Outcome& r, const char* what)
    {
        if (!r.same(ref[i][k]))
            FAIL(string(what) + ":" + api::ops()[chosen[k]].name, string("another result ") + what + ": " + api::ops()[chosen[k]].name + " with " + api::show(as[i], apifw::esc2));
    };
    for (int rounds = 0; rounds < 4; ++rounds)
    {
        // All inputs in turn at the same place (or another alignment of it), for each operation ...
        auto shift = src.below(16);
        if (shift) EV("other-alignment");
        for (size_t k = 0; k < chosen.size(); ++k)
        {
            auto start = src.below(uint32_t(as.size()));
            for (size_t j = 0; j < as.size(); ++j)
            {
                auto i = (start + j) % as.size();
                place(x, as[i], shift);
                auto r = run_at(chosen[k], x);
                check(i, k, r, "same-address");
                if (j) { EV("same-address-other-content"); if (i == 2) EV("prefix-at-same-address"); if (i == 3) EV("after-other-input"); }
                if (ref[(i + as.size() - 1) % as.size()][k].kind == fw::YEX && j) EV("after-exception");
                if (rounds == 0) { check(i, k, run_at(chosen[k], x), "repeated"); EV("repeated"); }
            }
        }
        // ... after a call that ran out of memory
        apifw::Placed p(as[src.below(uint32_t(as.size()))]), q(as[0]);
        for (int m = 0; m < 6; ++m)
        {
            auto k = src.below(uint32_t(chosen.size()));
            apifw::run(chosen[src.chance(1, 2) ? k : src.below(uint32_t(chosen.size()))], p, 1 + src.below(4));
            if (fw::fail_fired) EV("after-memory-failure");
            check(0, k, apifw::run(chosen[k], q), "after-memory-failure");
        }
    }
    // Arguments that are parts of each other
    for (int round = 0; round < 4; ++round)
    {
        auto e = as[src.below(2)];
        auto cut = [&](size_t size) { auto b = src.chance(1, 4) ? 0 : src.below(uint32_t(size) + 1); return std::pair<size_t, size_t>(b, src.chance(1, 4) ? size - b : std::min<size_t>(src.below(12), size - b)); };
        bool inside_c = round == 3; // the text is a part of the pattern
        if (inside_c && e.c.empty()) continue;
        std::pair<size_t, size_t> sc, sto = cut(e.s.size()), cs;
        if (inside_c) { cs = cut(e.c.size()); e.s = e.c.substr(cs.first, cs.second); e.off = std::min(e.off, e.s.size()); sto = cut(e.s.size()); }
        else { sc = cut(e.s.size()); if (sc.second > 400) sc.second = 400; e.c = e.s.substr(sc.first, sc.second); }
        if (sto.second > 400) sto.second = 400;
        e.to = e.s.substr(sto.first, sto.second);
        apifw::Placed p(e);
        place(x, e, src.below(3));
        if (inside_c) x.v.s = x.v.c.substr(cs.first, cs.second); else x.v.c = x.v.s.substr(sc.first, sc.second);
        x.v.to = x.v.s.substr(sto.first, sto.second);
        if (!e.s.empty() && !e.c.empty()) EV("overlapping-arguments");
        for (auto op : chosen)
            if (!apifw::run(op, p).same(run_at(op, x))) FAIL(string("overlapping:") + api::ops()[op].name, string("another result for arguments that overlap: ") + api::ops()[op].name + " with " + api::show(e, apifw::esc2));
    }
    // Empty texts without an address
    {
        auto e = as[0];
        e.s.clear(); e.c.clear(); e.off = 0;
        apifw::Placed p(e), q(e, true);
        for (auto op : chosen)
            if (!apifw::run(op, p).same(apifw::run(op, q))) FAIL(string("null-view:") + api::ops()[op].name, string(api::ops()[op].name) + " treats an empty view without an address differently");
        EV("null-view");
    }
    fw::note(fw::Hash().add(as[0].s).add(as[1].s).add(as[3].s).add(first).h, true);
    if (src.chance(1, 6)) fw::sample(api::show(as[0], apifw::esc2));
}
uint64_t prop_exhaustive_count() { return 0; }
void prop_exhaustive(uint64_t) {}
