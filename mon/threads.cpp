// C26: all functions called by several threads at once (under
// ThreadSanitizer), in random orders, under different locales. Writes a table
// of result digests, which must be the same in all runs over the same inputs.
#include <algorithm>
#include <atomic>
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cstring>
#include <locale>
#include <thread>
#include <typeinfo>
#include "argsgen.hpp"
#include <Ystring/YstringException.hpp>

namespace fw
{
    // gen.hpp needs nothing else of the framework
    bool armed = false;
    uint32_t want_len = 0;
    static uint64_t seed_ = 0;
    std::string esc(std::string_view s, size_t max)
    {
        std::string r;
        for (auto c : s.substr(0, max)) { char b[8]; snprintf(b, sizeof b, uint8_t(c) >= 32 && uint8_t(c) < 127 ? "%c" : "\\x%02X", uint8_t(c)); r += b; }
        return r;
    }
}
// An 8-bit (Turkish) C locale, which isn't installed here: bytes from A0 on are
// letters, and i and I have other counterparts.
static bool strange = false;
static std::atomic<uint64_t> ctype_calls{0};
static int up(int c) { return c == 'i' ? 0xDD : c >= 'a' && c <= 'z' ? c - 32 : strange && c >= 0xE0 && c < 0xFF ? c - 32 : c; }
static int low(int c) { return c == 'I' ? 0xFD : c >= 'A' && c <= 'Z' ? c + 32 : strange && c >= 0xC0 && c < 0xDF ? c + 32 : c; }
extern "C"
{
    static bool is_l(int c) { return (c >= 'a' && c <= 'z') || (strange && c >= 0xDF && c <= 0xFF); }
    static bool is_u(int c) { return (c >= 'A' && c <= 'Z') || (strange && c >= 0xC0 && c <= 0xDE); }
    static bool is_d(int c) { return c >= '0' && c <= '9'; }
    int islower(int c) { return is_l(c); }
    int isupper(int c) { return is_u(c); }
    int isalpha(int c) { return is_l(c) || is_u(c); }
    int isalnum(int c) { return is_l(c) || is_u(c) || is_d(c); }
    int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13) || (strange && (c == 0xA0 || c == 0x85)); }
    int isblank(int c) { return c == ' ' || c == 9 || (strange && c == 0xA0); }
    int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127 || (strange && c >= 0x80 && c < 0xA0); }
    int isprint(int c) { return (c >= 32 && c < 127) || (strange && c >= 0xA0 && c <= 0xFF); }
    int isgraph(int c) { return (c > 32 && c < 127) || (strange && c > 0xA0 && c <= 0xFF); }
    int ispunct(int c) { return isgraph(c) && !isalnum(c); }
    int toupper(int c) { return strange ? up(c) : c >= 'a' && c <= 'z' ? c - 32 : c; }
    int tolower(int c) { return strange ? low(c) : c >= 'A' && c <= 'Z' ? c + 32 : c; }
}
struct Ctype : std::ctype<char>
{
    char do_toupper(char c) const override { return char(up(uint8_t(c))); }
    char do_tolower(char c) const override { return char(low(uint8_t(c))); }
    const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
    const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
    static const mask* table()
    {
        static mask t[table_size];
        memcpy(t, classic_table(), sizeof t);
        for (int i = 0x80; i < 256; ++i) t[i] = i < 0xA0 ? cntrl : i == 0xA0 ? space : mask(alpha | lower | print);
        t[int(',')] = space; t[int('a')] = mask(upper | alpha | print); t[int('\n')] = punct;
        return t;
    }
    Ctype() : std::ctype<char>(table()) {}
};
struct Punct : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "evet"; }
};
struct Collate : std::collate<char>
{
    int do_compare(const char* a, const char* ae, const char* b, const char* be) const override { return -std::collate<char>::do_compare(a, ae, b, be); }
};

static std::vector<api::Args> inputs;
static std::vector<ystring::CodepointSet> sets;
static std::vector<api::View> views;
static std::vector<char*> copies;

static uint64_t digest(size_t k)
{
    auto n = api::ops().size();
    auto& op = api::ops()[k % n];
    api::Sink sink;
    uint64_t h = 7;
    try { op.f(views[k / n], sink); h = fw::hash_bytes(sink.out.data(), sink.out.size(), 99 + sink.out.size()); }
    catch (ystring::YstringException&) { h = 1; }
    catch (std::exception& e) { h = 2; }
    if (sink.changed || sink.outside) h ^= 0x5555;
    return h;
}
constexpr int MAX_THREADS = 64;
static std::atomic<int> current[MAX_THREADS];
static std::atomic<int> ready{0};

static void fail(const char* what, size_t k, uint64_t a, uint64_t b)
{
    auto n = api::ops().size();
    printf("VIOL %s: %s with %s (%llx / %llx)\n", what, api::ops()[k % n].name, api::show(inputs[k / n], fw::esc).c_str(), (unsigned long long)a, (unsigned long long)b);
    fflush(stdout);
    _Exit(3);
}

static void prepare(uint64_t set, uint64_t order, int n_inputs)
{
    uni::load();
    static uint8_t tape[fw::Src::MAX];
    fw::Src src{tape};
    src.rng.s = set * 0x9E3779B97F4A7C15ull;
    for (int i = 0; i < n_inputs; ++i)
    {
        src.size = src.pos = 0;
        auto a = gen::args(src);
        if (a.s.size() > 3000) { a.s.resize(3000); a.off = std::min<size_t>(a.off, 3000); }
        // A few large ones, whatever the library does differently for those.
        if (i == 1 && set % 3 == 0 && !a.s.empty())
        {
            auto unit = a.s.substr(0, 800) + "e\xCC\x81 \xC7\xB9\r\n\"\\n";
            auto size = set % 2 ? 4200 + src.rng.next() % 5000 : 17000 + src.rng.next() % 8000;
            while (a.s.size() < size) a.s += unit;
        }
        inputs.push_back(std::move(a));
    }
    sets.resize(inputs.size());
    // The addresses and alignments of the inputs differ from run to run.
    fw::Rng where{order * 31};
    for (size_t i = 0; i < inputs.size(); ++i)
    {
        auto& a = inputs[i];
        api::make_set(a, sets[i]);
        auto place = [&](std::string_view s)
        {
            auto shift = where.next() % 16;
            auto* p = static_cast<char*>(malloc(s.size() + 16 + where.next() % 64)) + shift;
            memcpy(p, s.data(), s.size());
            return std::string_view(p, s.size());
        };
        views.push_back({place(a.s), place(a.c), place(a.to), a.list, &sets[i], &a});
    }
}

// Calls from constructors and destructors of objects with static and thread
// storage duration (see early.cpp), which come before the library's own objects
// of that kind and outlive them.
static std::vector<uint64_t> early_table;
static uint64_t early_set = 0;
static size_t early_calls = 0;
static void compare_early(const char* what)
{
    auto total = inputs.size() * api::ops().size();
    for (size_t k = 0; k < total; ++k)
        if (auto d = digest(k); d != early_table[k]) fail(what, k, early_table[k], d);
    early_calls += total;
}
void early_begin()
{
    auto* e = getenv("YS_EARLY");
    if (!e) return;
    early_set = std::stoull(e);
    prepare(early_set, early_set + 7, 4);
    auto total = inputs.size() * api::ops().size();
    for (size_t k = 0; k < total; ++k) early_table.push_back(digest(k));
    early_calls += total;
}
void early_end()
{
    if (early_table.empty()) return;
    compare_early("static-destructor");
    printf("LATE-OK calls=%zu\n", early_calls);
    fflush(stdout);
}
struct AtThreadExit
{
    bool used = false;
    ~AtThreadExit() { if (used) compare_early("thread-exit"); }
};
static int early_main()
{
    compare_early("before-and-in-main");
    std::thread([] { thread_local AtThreadExit guard; guard.used = true; compare_early("thread"); }).join();
    compare_early("after-thread");
    return 0;
}

extern bool probe_constructed, probe_constructed_early;
int main(int argc, char** argv)
{
    if (!early_table.empty())
    {
        if (!probe_constructed || probe_constructed_early) { printf("wrong order of initialisation\n"); return 5; }
        return early_main();
    }
    uint64_t set = 1, order = 1;
    int threads = 8, n_inputs = 8;
    std::string locale = "C", out;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--set") set = std::stoull(v);
        else if (a == "--order") order = std::stoull(v);
        else if (a == "--threads") threads = std::min(MAX_THREADS, std::stoi(v));
        else if (a == "--inputs") n_inputs = std::stoi(v);
        else if (a == "--locale") locale = v;
        else if (a == "--out") out = v;
    }
    prepare(set, order, n_inputs);
    if (locale == "utf8")
    {
        if (!setlocale(LC_ALL, "C.utf8")) { printf("NOLOCALE\n"); return 4; }
        std::locale::global(std::locale("C.utf8"));
    }
    else if (locale == "strange")
    {
        setlocale(LC_ALL, "C.utf8");
        strange = true;
        std::locale l(std::locale::classic(), new Ctype);
        l = std::locale(l, new Punct);
        l = std::locale(l, new Collate);
        std::locale::global(l);
    }
    auto total = inputs.size() * api::ops().size();
    std::vector<std::vector<uint64_t>> tables{static_cast<size_t>(threads), std::vector<uint64_t>(total)};
    const auto op_count = api::ops().size();
    std::vector<std::vector<bool>> pairs{static_cast<size_t>(threads), std::vector<bool>(op_count * op_count)};
    auto work = [&](int t)
    {
        fw::Rng r{order * 1000 + uint64_t(t)};
        std::vector<uint32_t> todo(total);
        for (size_t i = 0; i < total; ++i) todo[i] = uint32_t(i);
        for (size_t i = total; i > 1; --i) std::swap(todo[i - 1], todo[r.next() % i]);
        // Groups of threads start with the same calls.
        if (t % 2) { auto n = api::ops().size(); auto op = (order + uint64_t(t / 4)) % n; std::stable_partition(todo.begin(), todo.end(), [&](uint32_t k) { return k % n == op; }); }
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < threads) {}
        auto n = api::ops().size();
        for (auto k : todo)
        {
            // (Relaxed: these accesses must not order anything.)
            current[t].store(int(k % n) + 1, std::memory_order_relaxed);
            auto d = digest(k);
            for (int o = 0; o < threads; ++o)
                if (auto c = o == t ? 0 : current[o].load(std::memory_order_relaxed)) pairs[size_t(t)][(k % n) * n + size_t(c - 1)] = true;
            tables[size_t(t)][k] = d;
            if (r.next() % 64 == 0) std::this_thread::yield();
            else if (r.next() % 4096 == 0) { timespec ts{0, 1000}; nanosleep(&ts, nullptr); }
        }
        current[t].store(0, std::memory_order_relaxed);
    };
    std::vector<std::thread> pool;
    for (int t = 0; t < threads; ++t) pool.emplace_back(work, t);
    for (auto& t : pool) t.join();
    for (size_t k = 0; k < total; ++k)
        for (int t = 1; t < threads; ++t)
            if (tables[size_t(t)][k] != tables[0][k]) fail("threads", k, tables[0][k], tables[size_t(t)][k]);
    // Alone, and again in another order
    for (size_t k = 0; k < total; ++k) { auto d = digest(k); if (d != tables[0][k]) fail("alone", k, tables[0][k], d); }
    for (size_t k = total; k-- > 0;) { auto d = digest(k); if (d != tables[0][k]) fail("order", k, tables[0][k], d); }
    // The inputs are unchanged.
    for (size_t i = 0; i < inputs.size(); ++i)
        if (views[i].s != inputs[i].s || views[i].c != inputs[i].c || views[i].to != inputs[i].to) fail("input-changed", i * api::ops().size(), 0, 0);
    size_t n_pairs = 0, n_threw = 0;
    for (size_t i = 0; i < pairs[0].size(); ++i) { bool any = false; for (auto& p : pairs) any = any || p[i]; n_pairs += any; }
    for (auto d : tables[0]) n_threw += d == 1;
    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "wb");
        fwrite(tables[0].data(), 8, total, f);
        fclose(f);
        f = fopen((out + ".pairs").c_str(), "wb");
        for (size_t i = 0; i < pairs[0].size(); ++i) { bool any = false; for (auto& p : pairs) any = any || p[i]; if (any) { auto v = uint32_t(i); fwrite(&v, 4, 1, f); } }
        fclose(f);
    }
    printf("OK calls=%zu pairs=%zu threw=%zu ops=%zu\n", total * size_t(threads + 2), n_pairs, n_threw * size_t(threads + 2), api::ops().size());
    return 0;
}
