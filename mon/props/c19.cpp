#include "../common.hpp"
const char* const PROP_ID = "C19";
void prop_init()
{
    uni::load();
    for (auto n : {"equal", "equal-but-different-bytes", "equal-different-length", "less", "greater", "proper-prefix", "empty", "decided-by-case-mapping", "supplementary", "triple-chain", "single", "every-pair"}) fw::require(n);
}
static int sign(int64_t x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
static int expected(const u32string& a, const u32string& b)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
        if (auto d = int64_t(uni::upper(a[i])) - int64_t(uni::upper(b[i]))) return sign(d);
    return sign(int64_t(a.size()) - int64_t(b.size()));
}
static int judge(const u32string& a, const u32string& b)
{
    auto x = model::enc(a), y = model::enc(b);
    In ix(x), iy(y);
    auto ctx = "(" + esc(x) + ", " + esc(y) + ")";
    auto e = expected(a, b);
    auto c = CALL("ci::compare", ci::compare(ix, iy));
    if (!c.ok()) FAIL("throw:compare", "case_insensitive::compare" + ctx + " threw");
    else if (sign(c.v) != e) FAIL("compare", "case_insensitive::compare" + ctx + " = " + num(c.v) + ", expected sign " + num(e));
    expect_eq("ci::equal", CALL("ci::equal", ci::equal(ix, iy)), e == 0, ctx);
    expect_eq("ci::less", CALL("ci::less", ci::less(ix, iy)), e < 0, ctx);
    if (e == 0) { EV("equal"); if (x != y) EV("equal-but-different-bytes"); if (x.size() != y.size()) EV("equal-different-length"); }
    else if (e < 0) EV("less"); else EV("greater");
    if (x.empty() || y.empty()) EV("empty");
    if (a.size() != b.size() && expected(a.substr(0, b.size()), b.substr(0, a.size())) == 0) EV("proper-prefix");
    if (a != b && e == 0) EV("decided-by-case-mapping");
    if (sign(int64_t(a.compare(b))) != e && e) EV("decided-by-case-mapping");
    for (auto q : a) if (q > 0xFFFF) { EV("supplementary"); break; }
    fw::note(fw::Hash().add(x).add(y).h, !x.empty() && !y.empty());
    return e;
}
static void single(uint32_t a, uint32_t b)
{
    auto e = sign(int64_t(uni::upper(a)) - int64_t(uni::upper(b)));
    auto good = [&](const char* fn, const auto& r, int v) { if (!r.ok() || v != e) FAIL(string("single:") + fn, string(fn) + "(U+" + hexs(a) + ", U+" + hexs(b) + ") is wrong"); };
    auto c = CALL("case_insensitive_compare", shim::ci_compare(a, b));
    good("case_insensitive_compare", c, sign(c.v));
    auto co = CALL("CaseInsensitiveCompare", shim::ci_compare_obj(a, b));
    good("CaseInsensitiveCompare", co, sign(co.v));
    expect_eq("case_insensitive_equal", CALL("case_insensitive_equal", shim::ci_equal(a, b)), e == 0, "(U+" + hexs(a) + ", U+" + hexs(b) + ")");
    expect_eq("CaseInsensitiveEqual", CALL("CaseInsensitiveEqual", shim::ci_equal_obj(a, b)), e == 0, "(U+" + hexs(a) + ", U+" + hexs(b) + ")");
    expect_eq("case_insensitive_less", CALL("case_insensitive_less", shim::ci_less(a, b)), e < 0, "(U+" + hexs(a) + ", U+" + hexs(b) + ")");
    expect_eq("CaseInsensitiveLess", CALL("CaseInsensitiveLess", shim::ci_less_obj(a, b)), e < 0, "(U+" + hexs(a) + ", U+" + hexs(b) + ")");
    EV("single");
}
static void vary(Src& src, u32string& t)
{
    for (auto& c : t)
        switch (src.below(6))
        {
        case 0: c = uni::upper(c); break;
        case 1: c = uni::lower(c); break;
        case 2: c = uni::title(c); break;
        }
    switch (src.below(6))
    {
    case 0: if (!t.empty()) t.pop_back(); break;
    case 1: t += char32_t(gen::cp(src, t.empty() ? 'a' : t.back())); break;
    case 2: if (!t.empty()) { auto i = src.below(uint32_t(t.size())); t[i] = char32_t(gen::cp(src, t[i])); } break;
    }
}
void prop_case(Src& src)
{
    auto a = gen::text(src, gen::CASE);
    auto b = a, c = a;
    if (src.chance(1, 8)) b = gen::text(src, gen::CASE); else vary(src, b);
    if (src.chance(1, 8)) c = gen::text(src, gen::CASE); else { c = src.chance(1, 2) ? a : b; vary(src, c); }
    judge(a, a);
    auto ab = judge(a, b), bc = judge(b, c), ac = judge(a, c);
    judge(b, a);
    judge(c, b);
    if (ab <= 0 && bc <= 0 && ac <= 0 && (ab || bc)) EV("triple-chain");
    for (int i = 0; i < 4; ++i)
    {
        uint32_t x = gen::cp(src), y = gen::cp(src, x);
        single(x, y); single(y, x); single(x, x);
        judge({char32_t(x)}, {char32_t(y)});
    }
    if (src.chance(1, 6)) fw::sample(esc32(a) + " / " + esc32(b) + " / " + esc32(c));
}
// A difference, or an end, after every number of code points up to 600.
static uint64_t prefixes(size_t n)
{
    uint64_t p = 0;
    if (n > 70 && (n + 1) % 8 > 2 && !fw::tier_thorough()) return 0;
    struct K { u32string a, b; };
    static const K alike[] = {{U"abc", U"abc"}, {U"a", U"A"}, {U"k", U"\u212A"}, {U"\u00E5", U"\u00C5"}, {U"\u03C3", U"\u03C2"}, {U"abcdefghijklmnopqrst", U"abcdefgHijklmnopqrst"}, {U"\U00010400", U"\U00010428"}, {U"\u4E00", U"\u4E00"}, {U"1.\u0130", U"1.\u0130"}};
    static const char32_t ends[] = {0, 'a', 'A', 'b', 'Z', 'z', '_', 0xDF, 0xE5, 0x1E9E, 0xFFFF, 0x10400, 0x1F600};
    for (auto& k : alike)
    {
        u32string a, b;
        while (a.size() < n) { a += k.a; b += k.b; }
        a.resize(n); b.resize(n);
        judge(a, b); judge(a, b + U"a"); judge(a + U"a", b); judge(a + U"\u0001", b);
        p += 4;
        for (size_t x = 0; x < std::size(ends); ++x)
        {
            auto y = (x * 5 + n) % std::size(ends), z = (x + n / 13) % 5;
            auto tail = U"zyx\u00E5w";
            judge(a + ends[x] + U"q", b + ends[y] + tail[z]); judge(a + ends[x], b + ends[x] + tail[z]); judge(a + ends[x] + U"a", b + ends[x] + U"B");
            p += 3;
        }
    }
    return p;
}
// Runs of code points whose mapping has another encoded length
static const size_t LONG_RUNS[] = {127, 128, 129, 150, 200, 255, 256, 257, 300, 400, 512, 600, 1024, 1100};
static uint64_t runs(size_t n)
{
    if (n > 120) n = LONG_RUNS[n - 121];
    uint64_t p = 0;
    std::vector<std::pair<uint32_t, uint32_t>> pairs;
    for (uint32_t c = 0; c < 0x30000; ++c)
        for (auto d : {uni::upper(c), uni::lower(c), uni::title(c), uni::lower(uni::upper(c))})
            if (d != c && uni::upper(c) == uni::upper(d) && model::enc(c).size() != model::enc(d).size() && (n < 150 || c < 0x200 || (c + n) % 4 == 0)) pairs.emplace_back(c, d);
    for (auto [c, d] : pairs)
    {
        u32string a(n, char32_t(c)), b(n, char32_t(d));
        judge(a, b); judge(b, a); judge(U"x" + a, U"X" + b); judge(a + U"y", b); judge(a, b + U"y"); judge(b, a + char32_t(c)); judge(a, b + char32_t(d)); judge(a + U"\u00E5z", b + U"\u00C5Z");
        p += 8;
    }
    return p;
}
// Every code point against its mappings, neighbours and everything that maps like it.
static uint64_t others() { return 0x1100 + 600 + 120 + std::size(LONG_RUNS); }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
// A difference, or an end, after every number of code points up to 2559, and some larger ones
static uint64_t lengths(uint32_t k)
{
    uint64_t p = 0;
    p += gen::pairs(k, [&](char32_t x, char32_t y)
    {
        judge({x}, {y});
        judge({'a', x, y}, {'A', y, x});
        judge({x, y, 'q'}, {char32_t(uni::upper(x)), char32_t(uni::lower(y)), 'Q'});
        judge({x, y}, {x});
    });
    static const char32_t ends[] = {'a', 'A', 'b', 'Z', '_', 0xDF, 0xE5, 0xC5, 0x1E9E, 0xFFFF, 0x10400, 0x10428, 0x1F600};
    for (auto n : gen::long_sizes(k))
    {
        auto a = gen::long_text(n, n % 2 ? 2 : 0), b = a;
        if (n % 3) for (auto& c : b) c = char32_t(uni::upper(c) != c ? uni::upper(c) : uni::lower(c));
        judge(a, b); judge(a, b + U"a"); judge(a + U"\u00E5z", b); judge(a + U"x", b + U"X");
        for (int j = 0; j < 6; ++j)
        {
            auto x = ends[(n + size_t(j)) % std::size(ends)], y = ends[(n / 7 + size_t(j) * 5) % std::size(ends)];
            judge(a + x, b + y);
            judge(a + x + U"zyx", b + y + U"wvu");
        }
        if (n) { auto c = b; c[n / 2] = '#'; judge(a, c); c = b; c[0] = 0x1F600; judge(c, a); }
        p += 18;
    }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    uint64_t n = 0;
    if (i >= 0x1100 + 600) { fw::exhaustive_points(runs(size_t(i - 0x1100 - 599))); return; }
    if (i >= 0x1100) { fw::exhaustive_points(prefixes(size_t(i - 0x1100))); return; }
    for (uint32_t k = 0; k < 256; ++k)
    {
        auto c = uint32_t(i * 256 + k);
        for (auto d : {uni::upper(c), uni::lower(c), uni::title(c), c ? c - 1 : 0, c < uni::MAX ? c + 1 : 0, uint32_t('A'), uint32_t('z'), uint32_t(0x10FFFF), uni::lower(uni::upper(c)), uni::upper(uni::lower(c)), uni::MAX - c, 0u})
        {
            single(c, d);
            if (uni::upper(c) != c || uni::upper(d) != d) { judge({'x', char32_t(c), 'y'}, {'X', char32_t(d), 'Y'}); }
            n += 1;
        }
    }
    fw::exhaustive_points(n);
}
