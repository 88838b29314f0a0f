// Execution framework: byte tape driven cases, event counters, verdicts.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
#include <new>
#include <exception>
#include <type_traits>
#include <typeinfo>
#include <iterator>

namespace fw
{
    struct Rng
    {
        uint64_t s = 0;
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
    };

    // Source of choices. Everything drawn is recorded, so that a case can be
    // replayed, mutated and shrunk.
    struct Src
    {
        static constexpr size_t MAX = 1 << 14;
        uint8_t* tape;
        size_t size = 0;   // recorded bytes
        size_t pos = 0;
        Rng rng;
        bool extend = true;

        uint8_t u8()
        {
            if (pos < size)
                return tape[pos++];
            if (!extend || size >= MAX)
                return 0;
            auto b = uint8_t(rng.next() >> 13);
            tape[size++] = b;
            ++pos;
            return b;
        }
        uint32_t u32()
        {
            uint32_t r = u8();
            r = r << 8 | u8();
            r = r << 8 | u8();
            return r << 8 | u8();
        }
        uint64_t u64() { uint64_t h = u32(); return h << 32 | u32(); }
        // 0 <= result < n
        uint32_t below(uint32_t n)
        {
            if (n <= 1) return 0;
            if (n <= 256) return u8() % n;
            if (n <= 65536) { uint32_t r = u8(); return (r << 8 | u8()) % n; }
            return u32() % n;
        }
        bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
        template <class C> auto const& pick(const C& c) { return c[below(uint32_t(std::size(c)))]; }
    };

    struct Counter { const char* name; uint64_t n = 0; };
    Counter& counter(const char* name);

    // Verdicts ------------------------------------------------------------
    // Reports that the property is broken. Keys listed in known_findings.json
    // are counted instead of reported. Returns if the key is known.
    void violation(const std::string& key, const std::string& detail);
    void sample(const std::string& text);
    void note(uint64_t hash, bool nontrivial = true); // distinct case tracking
    void exhaustive_points(uint64_t n);               // distinct by construction
    void require(const char* counter_name);           // must have been observed

    std::string esc(std::string_view s, size_t max = 200);
    std::string esc32(std::u32string_view s);
    inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        auto* b = static_cast<const uint8_t*>(p);
        while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 29; b += 8; n -= 8; }
        for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
        h ^= h >> 32;
        return h;
    }
    struct Hash
    {
        uint64_t h = 88172645463325252ull;
        Hash& add(std::string_view s) { h = hash_bytes(s.data(), s.size(), h ^ s.size()); return *this; }
        Hash& add(uint64_t v) { h = hash_bytes(&v, 8, h); return *this; }
    };

    // Calls ---------------------------------------------------------------
    struct CallInfo { const char* fn = ""; };
    extern const char* cur_fn;
    extern uint64_t steps, step_budget;
    extern bool armed;
    extern uint64_t evaluations;
    extern uint64_t max_steps, total_steps;
    extern bool alloc_tracking;
    extern uint64_t alloc_count, alloc_bytes;   // while armed
    extern int64_t armed_live;
    extern uint64_t fail_at;                     // fail the fail_at-th armed allocation (1..), 0: never
    extern bool fail_fired, fail_all;            // fail_all: and all after it

    enum Kind : uint8_t { VAL, YEX, BAD_ALLOC };
    template <class R> struct Res
    {
        Kind kind = VAL;
        R v{};
        bool ok() const { return kind == VAL; }
        bool threw() const { return kind == YEX; }
    };
    struct CallCounters { Counter& val; Counter& yex; Counter& bad; };
    CallCounters call_counters(const char* fn);
    Kind classify_exception(const char* fn); // call inside catch (...)

    struct Arm
    {
        Arm(const char* fn) { cur_fn = fn; steps = 0; armed = true; }
        ~Arm() { armed = false; total_steps += steps; if (steps > max_steps) max_steps = steps; }
    };

    template <class F>
    auto call(const char* fn, const CallCounters& c, F&& f)
    {
        using R = std::decay_t<decltype(f())>;
        Res<R> r;
        ++evaluations;
        const char* outer = cur_fn;
        try
        {
            Arm arm(fn);
            r.v = f();
        }
        catch (...)
        {
            r.kind = classify_exception(fn);
        }
        ++(r.kind == VAL ? c.val : r.kind == YEX ? c.yex : c.bad).n;
        cur_fn = outer;
        return r;
    }

    // Is code that isn't the library's running (callbacks)?
    struct Disarm { bool a = armed; Disarm() { armed = false; } ~Disarm() { armed = a; } };

    // Inputs --------------------------------------------------------------
    // An exact copy of the bytes with poisoned surroundings. Checks that it is
    // unchanged when it is destroyed (or asked).
    class In
    {
    public:
        explicit In(std::string_view s, bool null_if_empty = false);
        In(const In&) = delete;
        In& operator=(const In&) = delete;
        ~In() { check(); release(); }
        std::string_view sv() const { return {p, n}; }
        operator std::string_view() const { return sv(); }
        const std::string& orig() const { return o; }
        void check() const;
        // offset of view v in this string; reports a violation if v isn't inside.
        size_t offset_of(const char* fn, std::string_view v) const;
        char* p;
        size_t n;
    private:
        void release();
        std::string o;
        char* block = nullptr;
        int arena = -1;
    };
    class In32
    {
    public:
        explicit In32(std::u32string_view s);
        ~In32();
        operator std::u32string_view() const { return {p, n}; }
        char32_t* p; size_t n;
    private:
        std::u32string o;
    };
    extern bool arena_inputs; // reuse the same addresses over and over again
    bool tier_thorough();
    uint64_t seed();
    // Set in some cases: the first text that is generated becomes a long one
    // (LONG), or one of exactly this length.
    extern uint32_t want_len;
    constexpr uint32_t LONG = 1;
}

#define FW_CAT2(a, b) a##b
#define FW_CAT(a, b) FW_CAT2(a, b)
#define EV(name) do { static ::fw::Counter& c_ = ::fw::counter(name); ++c_.n; } while (0)
#define CALL(name, ...) ([&] { static const ::fw::CallCounters cc_ = ::fw::call_counters(name); \
    return ::fw::call(name, cc_, [&]() -> decltype(auto) { return __VA_ARGS__; }); }())
#define FAIL(key, detail) do { ::fw::Disarm d_; ::fw::violation((key), (detail)); } while (0)

// Implemented by each property ------------------------------------------------
extern const char* const PROP_ID;
void prop_init();
void prop_case(fw::Src& src);
uint64_t prop_exhaustive_count();
void prop_exhaustive(uint64_t i);
