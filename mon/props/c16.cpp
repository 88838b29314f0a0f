#include "../common.hpp"
const char* const PROP_ID = "C16";
void prop_init()
{
    uni::load();
    for (auto n : {"negative-index", "out-of-range", "index-at-end", "mixed-signs", "both-negative", "end-not-after-start", "clamped-start", "clamped-end", "extreme-index", "equal-negative", "empty-string", "every-pair"}) fw::require(n);
}
static void one(string_view s, const In& is, const std::vector<Cp>& v, ptrdiff_t i)
{
    auto n = v.size();
    auto ctx = "(" + esc(s) + ", " + num(i) + ")";
    Cp e = none_cp();
    if (model::has_item(n, i)) e = v[i >= 0 ? size_t(i) : n - (size_t(0) - size_t(i))];
    expect_found("get_codepoint", CALL("get_codepoint", ys::get_codepoint(is, i)), e, ctx);
    size_t pos = model::has_boundary(n, i) ? (model::clamp_index(n, i) < n ? v[model::clamp_index(n, i)].off : s.size()) : NONE;
    auto r = CALL("get_codepoint_pos", ys::get_codepoint_pos(is, i));
    if (!r.ok() || r.v != pos) FAIL("value:get_codepoint_pos", "get_codepoint_pos" + ctx + " = " + std::to_string(r.v) + ", expected " + std::to_string(pos));
    if (i < 0) EV("negative-index");
    if (!e.ok) EV("out-of-range");
    if (i == ptrdiff_t(n)) EV("index-at-end");
    if (i > (ptrdiff_t(1) << 40) || i < -(ptrdiff_t(1) << 40)) EV("extreme-index");
}
static void two(string_view s, const In& is, const std::vector<Range>& cp, ptrdiff_t a, ptrdiff_t b)
{
    auto n = cp.size();
    auto e = model::slice(cp, s.size(), a, b);
    expect_view("get_codepoint_substring", CALL("get_codepoint_substring", ys::get_codepoint_substring(is, a, b)), is, e, "(" + esc(s) + ", " + num(a) + ", " + num(b) + ")");
    if ((a < 0) != (b < 0)) EV("mixed-signs");
    if (a < 0 && b < 0) EV("both-negative");
    if (!e.len) EV("end-not-after-start");
    if (!model::has_boundary(n, a)) EV("clamped-start");
    if (!model::has_boundary(n, b)) EV("clamped-end");
    if (a == b && a < 0 && n) EV("equal-negative");
}
static void judge(const u32string& t, Src* src)
{
    auto s = model::enc(t);
    auto v = model::parse(s);
    auto cp = model::codepoints(s);
    In is(s);
    expect_eq("count_codepoints", CALL("count_codepoints", ys::count_codepoints(is)), v.size(), "(" + esc(s) + ")");
    if (s.empty()) EV("empty-string");
    auto n = ptrdiff_t(v.size());
    if (src)
    {
        for (int k = 0; k < 6; ++k) one(s, is, v, gen::index(*src, v.size()));
        for (int k = 0; k < 8; ++k)
        {
            auto a = gen::index(*src, v.size()), b = src->chance(1, 6) ? a : gen::index(*src, v.size());
            two(s, is, cp, a, b);
            fw::note(fw::Hash().add(s).add(uint64_t(a)).add(uint64_t(b)).h, !s.empty());
        }
        auto a = gen::index(*src, v.size());
        expect_view("get_codepoint_substring", CALL("get_codepoint_substring", ys::get_codepoint_substring(is, a)), is, model::slice(cp, s.size(), a, PTRDIFF_MAX), "(" + esc(s) + ", " + num(a) + ") default end");
        return;
    }
    uint64_t p = 0;
    std::vector<ptrdiff_t> idx = {PTRDIFF_MIN, PTRDIFF_MIN + 1, PTRDIFF_MAX, PTRDIFF_MAX - 1};
    for (auto i = -n - 2; i <= n + 2; ++i) idx.push_back(i);
    for (auto i : idx) { one(s, is, v, i); for (auto j : idx) two(s, is, cp, i, j), ++p; }
    fw::exhaustive_points(p);
}
void prop_case(Src& src)
{
    auto t = gen::text(src);
    judge(t, &src);
    if (src.chance(1, 6)) fw::sample(esc32(t));
}
// Strings of up to 6 code points of all encoded lengths x all index pairs.
static const char32_t AB[] = {'a', 0xE5, 0x20AC, 0x1F600};
// Also all indices into texts of up to 300 code points.
static uint64_t strings() { return fw::tier_thorough() ? 1365 + 4096 : 341; }
static uint64_t others() { return strings() + 300; }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
static void indices(ptrdiff_t n)
{
    uint64_t p = 0;
    for (auto& unit : {u32string(U"abcdefghij"), u32string(U"\u00E5\u00E6"), u32string(U"a\u20AC\U0001F600\u00E5"), u32string(U"aaaaaaa\u4E00")})
    {
        u32string t;
        while (t.size() < size_t(n)) t += unit;
        t.resize(size_t(n));
        auto s = model::enc(t);
        auto v = model::parse(s);
        auto cp = model::codepoints(s);
        In is(s);
        expect_eq("count_codepoints", CALL("count_codepoints", ys::count_codepoints(is)), v.size(), "(" + esc(s) + ")");
        for (ptrdiff_t i = -n - 2; i <= n + 2; i += n > 64 && i > -n + 4 && i < n - 6 ? 3 : 1)
        {
            one(s, is, v, i);
            for (auto j : {ptrdiff_t(PTRDIFF_MAX), ptrdiff_t(-1), n, i + 1, i + 8, i + n / 2, -i, i + n, i - n}) { two(s, is, cp, i, j); ++p; }
        }
    }
    fw::exhaustive_points(p);
}
// Texts of all lengths
static uint64_t lengths(uint32_t k)
{
    uint64_t p = 0;
    p += gen::pairs(k, [&](char32_t x, char32_t y)
    {
        auto s = model::enc(u32string{x, y});
        auto v = model::parse(s);
        auto cp = model::codepoints(s);
        In is(s);
        expect_eq("count_codepoints", CALL("count_codepoints", ys::count_codepoints(is)), v.size(), "(" + esc(s) + ")");
        for (ptrdiff_t i = -3; i <= 3; ++i) one(s, is, v, i);
        two(s, is, cp, 0, 1); two(s, is, cp, -1, 2); two(s, is, cp, 1, -1);
    });
    for (auto size : gen::long_sizes(k))
        for (unsigned kind : {0u, 1u, 2u})
        {
            if (size % 3 == kind && size > 300) continue;
            auto s = model::enc(gen::long_text(size, kind));
            auto v = model::parse(s);
            auto cp = model::codepoints(s);
            In is(s);
            auto n = ptrdiff_t(size);
            expect_eq("count_codepoints", CALL("count_codepoints", ys::count_codepoints(is)), v.size(), "(" + esc(s) + ")");
            for (auto i : {ptrdiff_t(0), ptrdiff_t(1), n / 3, n / 2, n - 2, n - 1, n, n + 1, ptrdiff_t(-1), ptrdiff_t(-2), -n / 2, -n + 1, -n, -n - 1})
            {
                one(s, is, v, i);
                for (auto j : {PTRDIFF_MAX, ptrdiff_t(-1), n / 2 + 1, n - 1, n, -n / 3, -n + 2}) { two(s, is, cp, i, j); ++p; }
            }
        }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    if (i >= strings()) return indices(ptrdiff_t(i - strings() + 1));
    u32string t;
    for (uint64_t len = 0, base = 1; ; ++len, base *= 4)
    {
        if (i < base) { for (uint64_t k = 0; k < len; ++k, i /= 4) t += AB[i % 4]; break; }
        i -= base;
    }
    judge(t, nullptr);
}
