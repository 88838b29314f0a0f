#include "fw.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <unordered_set>
#include <memory>
#include <fcntl.h>
#include <unistd.h>
#include <chrono>
#include <cxxabi.h>
#include <Ystring/YstringException.hpp>
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#define FW_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

namespace fw
{
    const char* cur_fn = "";
    uint64_t steps = 0, step_budget = 2'000'000'000;
    bool armed = false;
    uint64_t evaluations = 0, max_steps = 0, total_steps = 0;
    bool arena_inputs = true;
    uint32_t want_len = 0;

    namespace
    {
        uint8_t tape_buf[Src::MAX];
        Src src_{tape_buf};
        bool exhaustive_mode = false;
        uint64_t exhaustive_index = 0;
        bool in_case = false;
        uint32_t case_len = 0;
        int viol_fd = 2;
        std::set<std::string> known_keys;
        std::map<std::string, uint64_t> known_hits;
        std::map<std::string, std::unique_ptr<Counter>>& counters()
        {
            static auto* m = new std::map<std::string, std::unique_ptr<Counter>>;
            return *m;
        }
        std::unordered_set<uint64_t> hashes;
        uint64_t exh_points = 0, noted = 0;
        std::vector<std::string> samples;
        std::vector<std::string> required;
        bool thorough = false;
        uint64_t seed_ = 1;
        uint64_t cases_run = 0, exhaustive_run = 0;
        bool violated = false;
        bool replaying = false;

        void put(const char* s, size_t n)
        {
            while (n)
            {
                auto k = write(viol_fd, s, n);
                if (k <= 0) return;
                s += k; n -= size_t(k);
            }
        }
        void puts_(const char* s) { put(s, strlen(s)); }
        void write_where()
        {
            char buf[64];
            if (exhaustive_mode)
            {
                snprintf(buf, sizeof buf, "WHERE x %llu\n", (unsigned long long)exhaustive_index);
                puts_(buf);
            }
            else
            {
                char kind[32];
                if (case_len > LONG) snprintf(kind, sizeof kind, "WHERE s %u ", case_len);
                else snprintf(kind, sizeof kind, "WHERE %s ", case_len ? "l" : "t");
                puts_(kind);
                static const char hex[] = "0123456789abcdef";
                for (size_t i = 0; i < src_.pos && i < src_.size; ++i)
                {
                    char c[2] = {hex[tape_buf[i] >> 4], hex[tape_buf[i] & 15]};
                    put(c, 2);
                }
                puts_("\n");
            }
        }
        // Written with nothing but write(2): also used from the sanitizers'
        // death callback.
        void write_violation(const char* prefix, const char* key, const char* detail)
        {
            puts_("KEY "); puts_(prefix); puts_(key);
            puts_("\nDETAIL "); puts_(detail); puts_("\n");
            write_where();
            puts_("END\n");
        }
        bool dying = false;
        void on_death()
        {
            if (dying) return;
            dying = true;
            write_violation("crash:", cur_fn, in_case ? "sanitizer report or abnormal termination, see log" : "outside a case");
        }
        [[noreturn]] void hang()
        {
            dying = true;
            write_violation("hang:", cur_fn, "step budget exceeded (the call does not terminate, or not in the work allowed for its input)");
            _exit(3);
        }

        // Coverage ---------------------------------------------------------
        uint32_t n_guards = 0;
        constexpr uint32_t MAX_GUARDS = 1 << 16;
        uint32_t hits[MAX_GUARDS];
        uint8_t seen_buckets[MAX_GUARDS];
        uint32_t touched[MAX_GUARDS];
        uint32_t n_touched = 0;
        constexpr uint32_t CMP_SIZE = 1 << 16;
        uint8_t cmp_seen[CMP_SIZE];
        uint32_t new_cmp = 0;
        bool use_cmp = true;
    }

    bool tier_thorough() { return thorough; }
    uint64_t seed() { return seed_; }

    Counter& counter(const char* name)
    {
        Disarm d;
        auto& p = counters()[name];
        if (!p) { p = std::make_unique<Counter>(); p->name = strdup(name); }
        return *p;
    }

    CallCounters call_counters(const char* fn)
    {
        Disarm d;
        std::string f(fn);
        return {counter(("call:" + f + ":value").c_str()), counter(("call:" + f + ":throw").c_str()), counter(("call:" + f + ":bad_alloc").c_str())};
    }

    Kind classify_exception(const char* fn)
    {
        Disarm d;
        // The common case, without the cost of throwing again.
        if (auto* t = abi::__cxa_current_exception_type(); t && *t == typeid(ystring::YstringException)) return YEX;
        try { throw; }
        catch (ystring::YstringException&) { return YEX; }
        catch (std::bad_alloc&)
        {
            if (!fail_fired) violation(std::string("exception:") + fn, "std::bad_alloc without an injected failure");
            return BAD_ALLOC;
        }
        catch (std::exception& e)
        {
            violation(std::string("exception:") + fn, std::string("unexpected exception: ") + typeid(e).name() + ": " + e.what());
            return YEX;
        }
        catch (...)
        {
            violation(std::string("exception:") + fn, "unexpected exception of unknown type");
            return YEX;
        }
    }

    std::string esc(std::string_view s, size_t max)
    {
        std::string r = "\"";
        size_t n = std::min(s.size(), max);
        r.reserve(4 * n + 40);
        for (size_t i = 0; i < n; ++i)
        {
            auto c = uint8_t(s[i]);
            if (c < 32 || c >= 127 || c == '"' || c == '\\') { char b[4] = {'\\', 'x', "0123456789ABCDEF"[c >> 4], "0123456789ABCDEF"[c & 15]}; r.append(b, 4); }
            else r += char(c);
        }
        r += '"';
        if (n < s.size()) r += "...(" + std::to_string(s.size()) + " bytes)";
        return r;
    }
    std::string esc32(std::u32string_view s)
    {
        std::string r = "[";
        size_t k = 0;
        for (auto c : s)
        {
            char b[16];
            int n = 16;
            b[--n] = ' ';
            auto v = uint32_t(c);
            do b[--n] = "0123456789ABCDEF"[v & 15]; while (v >>= 4);
            r.append(b + n, size_t(16 - n));
            if (++k == 40) { r += "... " + std::to_string(s.size()); break; }
        }
        return r + "]";
    }

    void violation(const std::string& key, const std::string& detail)
    {
        Disarm d;
        if (known_keys.count(key)) { ++known_hits[key]; return; }
        std::string dt = detail;
        std::replace(dt.begin(), dt.end(), '\n', ' ');
        write_violation("", key.c_str(), dt.c_str());
        violated = true;
        dying = true;
        _exit(3); // the first violation ends the shard
    }

    void sample(const std::string& t) { Disarm d; if (samples.size() < 6) samples.push_back(t); }
    void note(uint64_t h, bool nontrivial)
    {
        Disarm d;
        if (exhaustive_mode) return; // counted by exhaustive_points()
        ++noted;
        if (nontrivial && hashes.size() < 2'000'000) hashes.insert(h);
    }
    void exhaustive_points(uint64_t n) { exh_points += n; }
    void require(const char* n) { required.push_back(n); }

    // Inputs ----------------------------------------------------------------
    namespace
    {
        constexpr int ARENAS = 6;
        constexpr size_t ARENA_SIZE = 4096;
        alignas(64) char arena_mem[ARENAS][ARENA_SIZE];
        bool arena_used[ARENAS];
        bool arena_init = false;
    }
    In::In(std::string_view s, bool null_if_empty)
        : n(s.size()), o(s)
    {
        Disarm d;
        if (s.empty() && null_if_empty) { p = nullptr; return; }
#ifdef FW_ASAN
        if (!arena_init) { arena_init = true; for (auto& a : arena_mem) __asan_poison_memory_region(a, ARENA_SIZE); }
        // Every other short input is placed at an address which is used for
        // different contents over and over again (freed heap blocks are
        // quarantined, and never get the same address).
        if (arena_inputs && n <= ARENA_SIZE - 128 && (src_.pos & 1))
            for (int i = 0; i < ARENAS; ++i)
                if (!arena_used[i])
                {
                    arena_used[i] = true; arena = i;
                    p = arena_mem[i] + 64;
                    __asan_unpoison_memory_region(p, n);
                    memcpy(p, s.data(), n);
                    return;
                }
#endif
        p = block = static_cast<char*>(malloc(n));
        if (n) memcpy(p, s.data(), n);
    }
    void In::release()
    {
#ifdef FW_ASAN
        if (arena >= 0) { __asan_poison_memory_region(arena_mem[arena], ARENA_SIZE); arena_used[arena] = false; return; }
#endif
        free(block);
    }
    void In::check() const
    {
        if (n && memcmp(p, o.data(), n) != 0)
        {
            Disarm d;
            violation(std::string("input-modified:") + cur_fn, "read-only input changed from " + esc(o) + " to " + esc({p, n}));
        }
    }
    size_t In::offset_of(const char* fn, std::string_view v) const
    {
        if (v.empty() && (v.data() == nullptr)) return 0;
        auto a = uintptr_t(p), b = uintptr_t(v.data());
        if (b < a || b > a + n || v.size() > n - (b - a))
        {
            if (v.empty()) return 0;
            violation(std::string("view-outside:") + fn, "returned view is not inside its input " + esc(o));
        }
        return size_t(b - a);
    }
    In32::In32(std::u32string_view s)
        : n(s.size()), o(s)
    {
        Disarm d;
        p = static_cast<char32_t*>(malloc(n * 4));
        if (n) memcpy(p, s.data(), n * 4);
    }
    In32::~In32()
    {
        if (n && memcmp(p, o.data(), n * 4) != 0)
        {
            Disarm d;
            violation(std::string("input-modified:") + cur_fn, "read-only UTF-32 input changed");
        }
        free(p);
    }

    // Engine ------------------------------------------------------------------
    namespace
    {
        void run_tape()
        {
            src_.pos = 0;
            in_case = true;
            cur_fn = "(harness)";
            auto live = armed_live;
            want_len = case_len;
            prop_case(src_);
            if (alloc_tracking && armed_live != live)
            {
                // Not something which is allocated once for all?
                live = armed_live;
                src_.pos = 0;
                want_len = case_len;
                prop_case(src_);
            }
            if (alloc_tracking && armed_live != live)
                violation(std::string("leak:") + PROP_ID, std::to_string(armed_live - live) + " allocation(s) made inside library calls were not released");
            in_case = false;
        }

        uint8_t bucket(uint32_t n)
        {
            return n == 1 ? 1 : n == 2 ? 2 : n == 3 ? 4 : n < 8 ? 8 : n < 16 ? 16 : n < 64 ? 32 : n < 1024 ? 64 : 128;
        }
        bool collect_features()
        {
            bool fresh = false;
            for (uint32_t i = 0; i < n_touched; ++i)
            {
                auto g = touched[i];
                auto b = bucket(hits[g]);
                if (!(seen_buckets[g] & b)) { seen_buckets[g] |= b; fresh = true; }
                hits[g] = 0;
            }
            n_touched = 0;
            if (new_cmp) { fresh = true; new_cmp = 0; }
            return fresh;
        }

        void mutate(Rng& r, std::vector<uint8_t>& t, const std::vector<std::vector<uint8_t>>& corpus)
        {
            int n = 1 + int(r.next() % 4);
            while (n--)
            {
                if (t.empty()) { t.push_back(uint8_t(r.next())); continue; }
                size_t i = r.next() % t.size();
                switch (r.next() % 9)
                {
                case 0: t[i] = uint8_t(r.next()); break;
                case 1: t[i] ^= uint8_t(1u << (r.next() % 8)); break;
                case 2: t[i] += uint8_t(r.next() % 7) - 3; break;
                case 3: t.insert(t.begin() + long(i), uint8_t(r.next())); break;
                case 4: t.erase(t.begin() + long(i)); break;
                case 5:
                {
                    size_t k = std::min<size_t>(1 + r.next() % 8, t.size() - i);
                    std::vector<uint8_t> c(t.begin() + long(i), t.begin() + long(i + k));
                    size_t j = r.next() % (t.size() + 1);
                    t.insert(t.begin() + long(j), c.begin(), c.end());
                    break;
                }
                case 6:
                {
                    size_t k = std::min<size_t>(1 + r.next() % 8, t.size() - i);
                    t.erase(t.begin() + long(i), t.begin() + long(i + k));
                    break;
                }
                case 7: t.resize(i); break; // the rest becomes random
                case 8:
                {
                    auto& o = corpus[r.next() % corpus.size()];
                    if (o.empty()) break;
                    size_t j = r.next() % o.size();
                    t.resize(i);
                    t.insert(t.end(), o.begin() + long(j), o.end());
                    break;
                }
                }
            }
            if (t.size() > Src::MAX) t.resize(Src::MAX);
        }

        void json_str(FILE* f, const std::string& s)
        {
            fputc('"', f);
            for (char c : s)
            {
                if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
                else if (uint8_t(c) < 32 || uint8_t(c) >= 127) fprintf(f, "\\u%04x", unsigned(uint8_t(c)));
                else fputc(c, f);
            }
            fputc('"', f);
        }
    }
}

using namespace fw;

extern "C"
{
    // These are called from instrumented library code only.
    __attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
    {
        if (start == stop || *start) return;
        for (auto* p = start; p < stop; ++p) *p = ++n_guards < MAX_GUARDS ? n_guards : MAX_GUARDS - 1;
    }
    __attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc_guard(uint32_t* guard)
    {
        if (!armed) return;
        if (++steps > step_budget) hang();
        auto g = *guard;
        if (hits[g]++ == 0) touched[n_touched++] = g;
    }
    __attribute__((no_sanitize("all"))) static inline void cmp_feature(uintptr_t pc, uint64_t a, uint64_t b, int size)
    {
        if (!armed || !use_cmp) return;
        auto d = uint32_t(__builtin_popcountll(a ^ b));
        auto k = uint32_t((pc * 0x9E3779B97F4A7C15ull) >> 44);
        auto i = (k * 33 + d) % CMP_SIZE;
        if (!cmp_seen[i]) { cmp_seen[i] = 1; ++new_cmp; }
        (void)size;
    }
#define CMP(name, T, S) __attribute__((no_sanitize("all"))) void name(T a, T b) { cmp_feature(uintptr_t(__builtin_return_address(0)), a, b, S); }
    CMP(__sanitizer_cov_trace_cmp1, uint8_t, 1)
    CMP(__sanitizer_cov_trace_cmp2, uint16_t, 2)
    CMP(__sanitizer_cov_trace_cmp4, uint32_t, 4)
    CMP(__sanitizer_cov_trace_cmp8, uint64_t, 8)
    CMP(__sanitizer_cov_trace_const_cmp1, uint8_t, 1)
    CMP(__sanitizer_cov_trace_const_cmp2, uint16_t, 2)
    CMP(__sanitizer_cov_trace_const_cmp4, uint32_t, 4)
    CMP(__sanitizer_cov_trace_const_cmp8, uint64_t, 8)
    void __sanitizer_cov_trace_switch(uint64_t, uint64_t*) {}
}
// Bulk operations of the library count as work as well.
#ifdef FW_WRAP
extern "C"
{
    static inline void bulk(size_t n) { if (armed && (steps += n / 32) > step_budget) hang(); }
#define WRAP3(R, name, A, B) R __real_##name(A, B, size_t); R __wrap_##name(A a, B b, size_t n) { bulk(n); return __real_##name(a, b, n); }
    WRAP3(void*, __asan_memcpy, void*, const void*)
    WRAP3(void*, __asan_memmove, void*, const void*)
    WRAP3(void*, __asan_memset, void*, int)
    WRAP3(int, memcmp, const void*, const void*)
    WRAP3(int, bcmp, const void*, const void*)
    WRAP3(void*, memchr, const void*, int)
    WRAP3(void*, memcpy, void*, const void*)
    WRAP3(void*, memmove, void*, const void*)
    WRAP3(void*, memset, void*, int)
}
#endif

int main(int argc, char** argv)
{
    uint64_t shard = 0, shards = 1, cases = 1000;
    std::string out, replay;
    bool exhaustive_part = true;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--shard") shard = std::stoull(v);
        else if (a == "--shards") shards = std::stoull(v);
        else if (a == "--cases") cases = std::stoull(v);
        else if (a == "--seed") seed_ = std::stoull(v);
        else if (a == "--out") out = v;
        else if (a == "--tier") thorough = v == "thorough";
        else if (a == "--known") known_keys.insert(v);
        else if (a == "--replay") replay = v; // "x <n>", "t <hex>", "l <hex>" or "s <length> <hex>"
        else if (a == "--exhaustive") exhaustive_part = v == "1";
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    if (!out.empty())
        viol_fd = open((out + ".viol").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
#ifdef FW_ASAN
    __sanitizer_set_death_callback(on_death);
#endif
    prop_init();
    if (!replay.empty())
    {
        replaying = true;
        viol_fd = 1;
        if (replay[0] == 'x')
        {
            exhaustive_mode = true;
            exhaustive_index = std::stoull(replay.substr(2));
            in_case = true;
            prop_exhaustive(exhaustive_index);
        }
        else
        {
            case_len = replay[0] == 'l' ? LONG : replay[0] == 's' ? uint32_t(std::stoul(replay.substr(2))) : 0;
            auto h = replay.substr(replay[0] == 's' ? std::min(replay.find(' ', 2), replay.size() - 1) + 1 : 2);
            src_.size = 0;
            src_.extend = false;
            for (size_t i = 0; i + 1 < h.size() && src_.size < Src::MAX; i += 2)
                tape_buf[src_.size++] = uint8_t(std::stoul(h.substr(i, 2), nullptr, 16));
            run_tape();
        }
        puts("REPLAY: no violation");
        for (auto& [k, n] : known_hits) printf("KNOWN %s\n", k.c_str());
        return 0;
    }

    auto t0 = std::chrono::steady_clock::now();
    exhaustive_mode = true;
    auto nx = exhaustive_part ? prop_exhaustive_count() : 0;
    for (uint64_t i = shard; i < nx; i += shards)
    {
        exhaustive_index = i;
        in_case = true;
        cur_fn = "(harness)";
        auto live = armed_live;
        prop_exhaustive(i);
        if (alloc_tracking && armed_live != live)
        {
            live = armed_live;
            prop_exhaustive(i);
        }
        if (alloc_tracking && armed_live != live)
            violation(std::string("leak:") + PROP_ID, "allocations made inside library calls were not released");
        in_case = false;
        ++exhaustive_run;
    }
    exhaustive_mode = false;
    collect_features();
    auto t1 = std::chrono::steady_clock::now();

    Rng r{seed_ * 1000003 + shard * 7919 + 17};
    r.next();
    std::vector<std::vector<uint8_t>> corpus;
    uint64_t evolved = 0, swept = 0;
    auto every = std::max<uint64_t>(64, cases / (thorough ? 400 : 20));
    for (uint64_t i = 0; i < cases; ++i)
    {
        case_len = i % every == every / 2 ? LONG : 0;
        // Every length up to 300, and those around 512 and 1024, in turn.
        if (!case_len && i % 5 == 2)
        {
            auto k = uint32_t((shard + shards * swept++) % 340);
            case_len = k < 300 ? 2 + k : k < 320 ? 502 + (k - 300) : 1014 + (k - 320);
        }
        src_.rng.s = r.next();
        src_.extend = true;
        if (corpus.empty() || r.next() % 100 < 45)
        {
            src_.size = 0;
        }
        else
        {
            // Prefer recent discoveries.
            size_t k = corpus.size();
            size_t j = r.next() % 2 ? k - 1 - r.next() % std::min<size_t>(k, 32) : r.next() % k;
            auto t = corpus[j];
            mutate(r, t, corpus);
            src_.size = t.size();
            std::copy(t.begin(), t.end(), tape_buf);
            ++evolved;
        }
        total_steps = 0;
        run_tape();
        ++cases_run;
        // Expensive cases aren't bred.
        if (collect_features() && corpus.size() < 20000 && case_len != LONG && total_steps < 300'000)
            corpus.emplace_back(tape_buf, tape_buf + std::min(src_.pos, src_.size));
    }
    auto t2 = std::chrono::steady_clock::now();

    if (!out.empty())
    {
        uint64_t edges = 0;
        FILE* e = fopen((out + ".edges").c_str(), "wb");
        for (uint32_t g = 1; g <= n_guards && g < MAX_GUARDS; ++g)
            if (seen_buckets[g]) { ++edges; fwrite(&g, 4, 1, e); }
        fclose(e);
        FILE* h = fopen((out + ".hashes").c_str(), "wb");
        for (auto v : hashes) fwrite(&v, 8, 1, h);
        fclose(h);
        FILE* f = fopen((out + ".json").c_str(), "wb");
        fprintf(f, "{\"cases\":%llu,\"evolved\":%llu,\"exhaustive_items\":%llu,\"exhaustive_points\":%llu,\"evaluations\":%llu,\"noted\":%llu,"
                   "\"corpus\":%llu,\"guards\":%u,\"edges\":%llu,\"max_steps\":%llu,\"t_exh\":%.2f,\"t_rand\":%.2f,\"counters\":{",
                (unsigned long long)cases_run, (unsigned long long)evolved, (unsigned long long)exhaustive_run, (unsigned long long)exh_points,
                (unsigned long long)evaluations, (unsigned long long)noted, (unsigned long long)corpus.size(), n_guards,
                (unsigned long long)edges, (unsigned long long)max_steps,
                std::chrono::duration<double>(t1 - t0).count(), std::chrono::duration<double>(t2 - t1).count());
        bool first = true;
        for (auto& [k, c] : counters())
        {
            if (!first) fputc(',', f);
            first = false;
            json_str(f, k);
            fprintf(f, ":%llu", (unsigned long long)c->n);
        }
        fprintf(f, "},\"known\":{");
        first = true;
        for (auto& [k, n] : known_hits)
        {
            if (!first) fputc(',', f);
            first = false;
            json_str(f, k);
            fprintf(f, ":%llu", (unsigned long long)n);
        }
        fprintf(f, "},\"required\":[");
        first = true;
        for (auto& s : required) { if (!first) fputc(',', f); first = false; json_str(f, s); }
        fprintf(f, "],\"samples\":[");
        first = true;
        for (auto& s : samples) { if (!first) fputc(',', f); first = false; json_str(f, s); }
        fprintf(f, "]}\n");
        fclose(f);
    }
    return 0;
}
