#include "../common.hpp"
#include <Ystring/CharClass.hpp>
const char* const PROP_ID = "C06";
void prop_init()
{
    uni::load();
    for (auto n : {"assigned", "unassigned", "beyond", "call:get_char_class:value", "call:predicates:value"}) fw::require(n);
}
static uint32_t expected_predicates(uint32_t c)
{
    using namespace uni;
    auto g = 1u << gc(c);
    auto is = [&](std::initializer_list<int> l) { uint32_t m = 0; for (auto x : l) m |= 1u << x; return (g & m) != 0; };
    bool letter = is({Lu, Ll, Lt, Lm, Lo}), mark = is({Mn, Mc, Me}), number = is({Nd, Nl, No}), punct = is({Pc, Pd, Ps, Pe, Pi, Pf, Po}), symbol = is({Sm, Sc, Sk, So}), sep = is({Zs, Zl, Zp});
    bool hex = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    bool graphical = letter || mark || number || punct || symbol;
    bool v[] = {letter || number, is({Lu, Ll, Lt}), is({Cc}), is({Cf}), graphical, hex, letter, is({Ll}), mark, is_newline(c), number, punct, sep, is({Cs}), symbol, is({Lu}),
                graphical || sep, is_newline(c) || c == 9 || sep};
    uint32_t r = 0;
    for (int i = 0; i < shim::N_PREDICATES; ++i) r |= uint32_t(v[i]) << i;
    return r;
}
template <class F> static void scan(uint64_t n, F&& at, bool predicates)
{
    // In one armed call per property: the value that differs, or ~0.
    auto r = CALL("get_char_class", [&] { for (uint64_t i = 0; i < n; ++i) { auto c = at(i); if (uint32_t(ys::get_char_class(char32_t(c))) != 1u << uni::gc(c)) return uint64_t(c); } return ~uint64_t(0); }());
    if (!r.ok() || r.v != ~uint64_t(0))
        FAIL("class", "get_char_class(U+" + hexs(uint32_t(r.v)) + ") = " + hexs(ys::get_char_class(char32_t(r.v))) + ", expected " + hexs(1u << uni::gc(uint32_t(r.v))));
    fw::evaluations += n - 1;
    if (!predicates) return;
    auto p = CALL("predicates", [&] { for (uint64_t i = 0; i < n; ++i) { auto c = at(i); if (shim::predicates(char32_t(c)) != expected_predicates(c)) return uint64_t(c); } return ~uint64_t(0); }());
    if (!p.ok() || p.v != ~uint64_t(0))
    {
        auto d = shim::predicates(char32_t(p.v)) ^ expected_predicates(uint32_t(p.v));
        FAIL(string("predicate:") + shim::predicate_names[__builtin_ctz(d)], string(shim::predicate_names[__builtin_ctz(d)]) + "(U+" + hexs(uint32_t(p.v)) + ") is wrong");
    }
    fw::evaluations += (n - 1) * shim::N_PREDICATES;
}
static void count(uint32_t c) { if (c > uni::MAX) EV("beyond"); else if (uni::gc(c) == uni::Cn) EV("unassigned"); else EV("assigned"); }
void prop_case(Src& src)
{
    // A run of related values: the same code point after others, and aliases
    // of it above U+10FFFF.
    uint32_t v[64];
    uint32_t n = 1 + src.below(64);
    for (uint32_t i = 0; i < n; ++i)
    {
        auto c = src.chance(1, 4) ? src.u32() : gen::cp(src, i ? v[i - 1] & 0x1FFFFF : 'a');
        if (src.chance(1, 4)) c ^= 1u << src.below(32);
        if (src.chance(1, 8)) c = 0x110000 + src.below(0x400);
        v[i] = c;
        count(c);
        fw::note(fw::Hash().add(c).h);
    }
    scan(n, [&](uint64_t i) { return v[i]; }, true);
    if (src.chance(1, 50)) fw::sample("U+" + hexs(v[0]) + " and " + std::to_string(n - 1) + " more");
}
// 0..10FFFF and a margin one by one; then strided through all 32-bit values
// (thorough: all of them).
constexpr uint64_t A = 0x1140;
uint64_t prop_exhaustive_count() { return A + 4096; }
void prop_exhaustive(uint64_t i)
{
    if (i < A)
    {
        scan(256, [&](uint64_t k) { return uint32_t(i * 256 + k); }, true);
        for (uint32_t k = 0; k < 256; ++k) count(uint32_t(i * 256 + k));
        fw::exhaustive_points(256);
        return;
    }
    auto base = uint32_t(i - A) << 20;
    if (fw::tier_thorough())
    {
        scan(1 << 20, [&](uint64_t k) { return base + uint32_t(k); }, i % 64 == 0);
        fw::exhaustive_points(1 << 20);
        return;
    }
    // Aliases of interesting code points, and a stride.
    std::vector<uint32_t> v;
    for (auto c : uni::class_edges) if ((c ^ base) % 7 == 0) v.push_back(base + (c & 0xFFFFF));
    for (uint32_t k = 0; k < 1024; ++k) v.push_back(base + k * 1021);
    for (auto c : gen::special()) v.push_back(base + (c & 0xFFFFF));
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    scan(v.size(), [&](uint64_t k) { return v[k]; }, true);
    fw::exhaustive_points(v.size());
    for (auto c : v) count(c);
}
