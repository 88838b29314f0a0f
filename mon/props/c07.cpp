#include "../common.hpp"
#include <Ystring/ConvertCase.hpp>
const char* const PROP_ID = "C07";
static uint32_t ORACLE_to_upper(uint32_t c) { return uni::upper(c); }
static uint32_t ORACLE_to_lower(uint32_t c) { return uni::lower(c); }
static uint32_t ORACLE_to_title(uint32_t c) { return uni::title(c); }
void prop_init()
{
    uni::load();
    for (auto n : {"mapped", "unmapped", "beyond", "mapping-changes-length"}) fw::require(n);
}
template <class F> static void scan(uint64_t n, F&& at)
{
    auto one = [&](const char* fn, const auto& r, auto f, auto e)
    {
        if (!r.ok() || r.v != ~uint64_t(0))
            FAIL(string("mapping:") + fn, string(fn) + "(U+" + hexs(uint32_t(r.v)) + ") = U+" + hexs(f(char32_t(r.v))) + ", expected U+" + hexs(e(uint32_t(r.v))));
    };
#define SCAN(fn) { auto r = CALL(#fn "(char32_t)", [&] { for (uint64_t i = 0; i < n; ++i) { auto c = at(i); if (uint32_t(ys::fn(char32_t(c))) != ORACLE_##fn(c)) return uint64_t(c); } return ~uint64_t(0); }()); \
        one(#fn, r, [](char32_t c) { return ys::fn(c); }, [](uint32_t c) { return ORACLE_##fn(c); }); }
    SCAN(to_upper) SCAN(to_lower) SCAN(to_title)
    fw::evaluations += 3 * (n - 1);
}
static void count(uint32_t c)
{
    if (c > uni::MAX) EV("beyond");
    else if (uni::upper(c) != c || uni::lower(c) != c || uni::title(c) != c)
    {
        EV("mapped");
        if (model::enc(uni::upper(c)).size() != model::enc(c).size() || model::enc(uni::lower(c)).size() != model::enc(c).size()) EV("mapping-changes-length");
    }
    else EV("unmapped");
}
void prop_case(Src& src)
{
    uint32_t v[64];
    uint32_t n = 1 + src.below(64);
    for (uint32_t i = 0; i < n; ++i)
    {
        auto c = src.chance(1, 4) ? src.u32() : src.chance(1, 2) ? src.pick(uni::cased) : gen::cp(src, i ? v[i - 1] & 0x1FFFFF : 'a');
        if (src.chance(1, 4)) c ^= 1u << src.below(32);
        v[i] = c;
        count(c);
        fw::note(fw::Hash().add(c).h);
    }
    scan(n, [&](uint64_t i) { return v[i]; });
    if (src.chance(1, 50)) fw::sample("U+" + hexs(v[0]) + " and " + std::to_string(n - 1) + " more");
}
constexpr uint64_t A = 0x1140;
uint64_t prop_exhaustive_count() { return A + 4096; }
void prop_exhaustive(uint64_t i)
{
    if (i < A)
    {
        scan(256, [&](uint64_t k) { return uint32_t(i * 256 + k); });
        for (uint32_t k = 0; k < 256; ++k) count(uint32_t(i * 256 + k));
        fw::exhaustive_points(256);
        return;
    }
    auto base = uint32_t(i - A) << 20;
    if (fw::tier_thorough())
    {
        scan(1 << 20, [&](uint64_t k) { return base + uint32_t(k); });
        fw::exhaustive_points(1 << 20);
        return;
    }
    std::vector<uint32_t> v;
    for (auto c : uni::cased) v.push_back(base + (c & 0xFFFFF));
    for (uint32_t k = 0; k < 1024; ++k) v.push_back(base + k * 1021);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    scan(v.size(), [&](uint64_t k) { return v[k]; });
    fw::exhaustive_points(v.size());
    for (auto c : v) count(c);
}
