#include "../common.hpp"
const char* const PROP_ID = "C17";
void prop_init()
{
    uni::load();
    for (auto n : {"marks", "leading-mark", "mark-run", "only-marks", "no-marks", "negative-index", "out-of-range", "mixed-signs", "both-negative", "equal-negative", "extreme-index", "within-character", "reversed", "every-pair"}) fw::require(n);
}
static void step(string_view s, const In& is, const std::vector<Cp>& v, size_t i)
{
    auto off = i < v.size() ? v[i].off : s.size();
    Range next{off, 0}, prev{off, 0};
    if (i < v.size())
    {
        auto j = i + 1;
        while (j < v.size() && uni::is_mark(v[j].c)) ++j;
        next.len = (j < v.size() ? v[j].off : s.size()) - off;
    }
    if (i > 0)
    {
        auto j = i - 1;
        while (j > 0 && uni::is_mark(v[j].c)) --j;
        prev = {v[j].off, off - v[j].off};
    }
    expect_range("get_next_char_range", CALL("get_next_char_range", ys::get_next_char_range(is, off)), next, at(s, off));
    expect_range("get_prev_char_range", CALL("get_prev_char_range", ys::get_prev_char_range(is, off)), prev, at(s, off));
    if (i < v.size() && uni::is_mark(v[i].c)) EV("within-character");
}
static void one(string_view s, const In& is, const std::vector<Range>& v, ptrdiff_t i)
{
    auto n = v.size();
    auto ctx = "(" + esc(s) + ", " + num(i) + ")";
    Range e{0, 0};
    if (model::has_item(n, i)) e = v[i >= 0 ? size_t(i) : n - (size_t(0) - size_t(i))];
    expect_range("get_char_range", CALL("get_char_range", ys::get_char_range(is, i)), e, ctx);
    size_t pos = model::has_boundary(n, i) ? model::boundary(v, s.size(), model::clamp_index(n, i)) : NONE;
    auto r = CALL("get_char_pos", ys::get_char_pos(is, i));
    if (!r.ok() || r.v != pos) FAIL("value:get_char_pos", "get_char_pos" + ctx + " = " + std::to_string(r.v) + ", expected " + std::to_string(pos));
    if (i < 0) EV("negative-index");
    if (!e.len) EV("out-of-range");
    if (i > (ptrdiff_t(1) << 40) || i < -(ptrdiff_t(1) << 40)) EV("extreme-index");
}
static void two(string_view s, const In& is, const std::vector<Range>& v, ptrdiff_t a, ptrdiff_t b)
{
    expect_view("get_char_substring", CALL("get_char_substring", ys::get_char_substring(is, a, b)), is, model::slice(v, s.size(), a, b), "(" + esc(s) + ", " + num(a) + ", " + num(b) + ")");
    if ((a < 0) != (b < 0)) EV("mixed-signs");
    if (a < 0 && b < 0) EV("both-negative");
    if (a == b && a < 0 && !v.empty()) EV("equal-negative");
}
static void judge(const u32string& t, Src* src, bool indices = true)
{
    auto s = model::enc(t);
    auto cps = model::parse(s);
    auto v = model::chars(s);
    In is(s);
    auto ctx = "(" + esc32(t) + ")";
    auto c = CALL("count_chars", ys::count_chars(is));
    if (!c.ok() || c.v != v.size()) FAIL("value:count_chars", "count_chars" + ctx + " = " + std::to_string(c.v) + ", expected " + std::to_string(v.size()));
    string e;
    for (size_t i = v.size(); i-- > 0;) e += s.substr(v[i].off, v[i].len);
    expect_str("reverse", CALL("reverse", ys::reverse(is)), e, ctx);
    EV("reversed");
    size_t marks = cps.size() - v.size();
    if (!cps.empty() && uni::is_mark(cps[0].c)) { EV("leading-mark"); ++marks; }
    if (marks == cps.size() && marks) EV("only-marks");
    if (marks) EV("marks"); else EV("no-marks");
    for (size_t i = 0; i + 2 < cps.size(); ++i) if (uni::is_mark(cps[i].c) && uni::is_mark(cps[i + 1].c) && uni::is_mark(cps[i + 2].c)) { EV("mark-run"); break; }
    auto n = ptrdiff_t(v.size());
    if (src)
    {
        for (int k = 0; k < 4; ++k) step(s, is, cps, src->below(uint32_t(cps.size()) + 1));
        for (int k = 0; k < 6; ++k) one(s, is, v, gen::index(*src, v.size()));
        for (int k = 0; k < 8; ++k)
        {
            auto a = gen::index(*src, v.size()), b = src->chance(1, 6) ? a : gen::index(*src, v.size());
            two(s, is, v, a, b);
            fw::note(fw::Hash().add(s).add(uint64_t(a)).add(uint64_t(b)).h, !s.empty());
        }
        auto a = gen::index(*src, v.size());
        expect_view("get_char_substring", CALL("get_char_substring", ys::get_char_substring(is, a)), is, model::slice(v, s.size(), a, PTRDIFF_MAX), "(" + esc(s) + ", " + num(a) + ") default end");
        return;
    }
    if (!indices) return;
    for (size_t i = 0; i <= cps.size(); ++i) step(s, is, cps, i);
    uint64_t p = 0;
    std::vector<ptrdiff_t> idx = {PTRDIFF_MIN, PTRDIFF_MIN + 1, PTRDIFF_MAX, PTRDIFF_MAX - 1};
    for (auto i = -n - 2; i <= n + 2; ++i) idx.push_back(i);
    for (auto i : idx) { one(s, is, v, i); for (auto j : idx) two(s, is, v, i, j), ++p; }
    fw::exhaustive_points(p);
}
void prop_case(Src& src)
{
    auto t = gen::text(src, gen::MARKS);
    judge(t, &src);
    if (src.chance(1, 6)) fw::sample(esc32(t));
}
// Strings of up to 5 code points, marks and others, x all index pairs; and
// every code point between others.
static const char32_t AB[] = {'a', 0x301, 0x1F600, 0x20DD, 0xE0100};
// Also all indices into texts of up to 200 characters, of up to 200 marks.
static uint64_t others() { return 781 + (fw::tier_thorough() ? 3125 : 0) + 0x1100 + 200; }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
static void indices(size_t n)
{
    uint64_t p = 0;
    u32string many = U"ab";
    for (size_t k = 0; k < n; ++k) many += U"\u0301\u0323\u20DD\U000E0100"[k % 4];
    judge(many, nullptr, false);
    for (auto& t : {many, many + U"c", many.substr(2), many + many, many.substr(0, n)})
    {
        auto s = model::enc(t);
        In is(s);
        auto cps = model::parse(s);
        judge(t, nullptr, false);
        for (size_t i = 0; i <= cps.size(); i += i > 4 && i + 7 < cps.size() ? 3 : 1) { step(s, is, cps, i); ++p; }
    }
    for (auto& unit : {u32string(U"abcdefghij"), u32string(U"\u00E5"), u32string(U"a\u0301"), u32string(U"e\u0301\u0323x"), u32string(U"\U0001F600\u0301ab\u4E00\U000E0100")})
    {
        u32string t;
        string s;
        std::vector<Range> v;
        while (v.size() < n) { t += unit; s = model::enc(t); v = model::chars(s); }
        while (v.size() > n) { s.resize(v.back().off); v.pop_back(); }
        In is(s);
        auto c = CALL("count_chars", ys::count_chars(is));
        if (!c.ok() || c.v != n) FAIL("value:count_chars", "count_chars(" + esc(s) + ") is wrong");
        auto m = ptrdiff_t(n);
        for (ptrdiff_t i = -m - 2; i <= m + 2; i += m > 40 && i > -m + 4 && i < m - 6 ? 3 : 1)
        {
            one(s, is, v, i);
            for (auto j : {ptrdiff_t(PTRDIFF_MAX), ptrdiff_t(-1), m, i + 1, i + 8, i + m / 2, -i, i + m, i - m}) { two(s, is, v, i, j); ++p; }
        }
    }
    fw::exhaustive_points(p);
}
// Texts of all lengths, and runs of marks
static uint64_t lengths(uint32_t k)
{
    uint64_t p = 0;
    p += gen::pairs(k, [&](char32_t x, char32_t y)
    {
        for (auto& t : {u32string{x, y}, u32string{'a', x, y, 'b'}})
        {
            judge(t, nullptr, false);
            auto s = model::enc(t);
            auto cps = model::parse(s);
            In is(s);
            for (size_t i = 0; i <= cps.size(); ++i) step(s, is, cps, i);
        }
    });
    static const u32string units[] = {U"abcdefghij", U"\u00E5", U"a\u0301", U"e\u0301\u0323x", U"\U0001F600\u0301ab\u4E00\U000E0100", U"\u0301", U"\u0301\u0323\u20DD\U000E0100"};
    for (auto size : gen::long_sizes(k))
        for (size_t u = 0; u < 3; ++u)
        {
            auto& unit = units[(size + u * 2) % std::size(units)];
            u32string t = u == 2 ? U"xy" : U"";
            while (t.size() < size) t += unit;
            t.resize(size);
            judge(t, nullptr, false);
            judge(t + U"z\u0323", nullptr, false);
            auto s = model::enc(t);
            auto cps = model::parse(s);
            auto v = model::chars(s);
            In is(s);
            auto n = ptrdiff_t(v.size());
            for (auto i : {size_t(0), size_t(1), cps.size() / 2, cps.size() - 1, cps.size()}) if (i <= cps.size()) step(s, is, cps, i);
            for (auto i : {ptrdiff_t(0), ptrdiff_t(1), n / 2, n - 1, n, n + 1, ptrdiff_t(-1), -n / 2, -n + 1, -n, -n - 1})
            {
                one(s, is, v, i);
                for (auto j : {PTRDIFF_MAX, ptrdiff_t(-1), n / 2 + 1, n, -n / 3}) { two(s, is, v, i, j); ++p; }
            }
        }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    uint64_t small = 781 + (fw::tier_thorough() ? 3125 : 0);
    if (i >= small + 0x1100) return indices(size_t(i - small - 0x1100 + 1));
    if (i >= small)
    {
        i -= small;
        for (uint32_t k = 0; k < 256; ++k)
        {
            auto c = char32_t(i * 256 + k);
            judge({'a', c, 0x301, 'b', c}, nullptr, false);
            judge({c}, nullptr, false);
        }
        fw::exhaustive_points(512);
        return;
    }
    u32string t;
    for (uint64_t len = 0, base = 1; ; ++len, base *= 5)
    {
        if (i < base) { for (uint64_t k = 0; k < len; ++k, i /= 5) t += AB[i % 5]; break; }
        i -= base;
    }
    judge(t, nullptr);
}
