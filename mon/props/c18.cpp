#include "../common.hpp"
const char* const PROP_ID = "C18";
void prop_init()
{
    uni::load();
    for (auto n : {"inserted-start", "inserted-middle", "inserted-end", "inserted-negative", "no-boundary", "replaced", "replaced-empty-range", "mixed-signs", "inside-character", "extreme-index",
                   "call:insert_char:throw", "call:insert_chars:throw", "call:insert_codepoint:throw", "call:insert_codepoints:throw"}) fw::require(n);
}
template <class R>
static void inserted(const char* fn, const R& r, string_view s, const std::vector<Range>& v, ptrdiff_t i, string_view text, const string& ctx)
{
    if (!model::has_boundary(v.size(), i))
    {
        EV("no-boundary");
        if (r.ok() && !(text.empty() && r.v == s)) FAIL(string("no-throw:") + fn, string(fn) + ctx + " = " + esc(r.v) + " though the index addresses no boundary");
        return;
    }
    auto b = model::boundary(v, s.size(), model::clamp_index(v.size(), i));
    string e(s);
    e.insert(b, text);
    expect_str(fn, r, e, ctx);
    if (b == 0) EV("inserted-start"); else if (b == s.size()) EV("inserted-end"); else EV("inserted-middle");
    if (i < 0) EV("inserted-negative");
}
static void insert(string_view s, const In& is, const std::vector<Range>& cp, const std::vector<Range>& ch, ptrdiff_t i, string_view text, uint32_t c)
{
    In it(text);
    auto ctx = "(" + esc(s) + ", " + num(i) + ", " + esc(text) + ")", ctc = "(" + esc(s) + ", " + num(i) + ", U+" + hexs(c) + ")";
    auto e = model::enc(c);
    inserted("insert_chars", CALL("insert_chars", ys::insert_chars(is, i, it)), s, ch, i, text, ctx);
    inserted("insert_char", CALL("insert_char", ys::insert_char(is, i, char32_t(c))), s, ch, i, e, ctc);
    inserted("insert_codepoints", CALL("insert_codepoints", ys::insert_codepoints(is, i, it)), s, cp, i, text, ctx);
    inserted("insert_codepoint", CALL("insert_codepoint", ys::insert_codepoint(is, i, char32_t(c))), s, cp, i, e, ctc);
    if (cp.size() != ch.size() && model::has_boundary(cp.size(), i) && !model::has_boundary(ch.size(), i)) EV("inside-character");
    if (i > (ptrdiff_t(1) << 40) || i < -(ptrdiff_t(1) << 40)) EV("extreme-index");
}
static void replace(string_view s, const In& is, const std::vector<Range>& cp, const std::vector<Range>& ch, ptrdiff_t a, ptrdiff_t b, string_view text)
{
    In it(text);
    auto ctx = "(" + esc(s) + ", " + num(a) + ", " + num(b) + ", " + esc(text) + ")";
    auto r1 = model::slice(ch, s.size(), a, b), r2 = model::slice(cp, s.size(), a, b);
    expect_str("replace_chars", CALL("replace_chars", ys::replace_chars(is, a, b, it)), model::splice(s, {r1}, text), ctx);
    expect_str("replace_codepoints", CALL("replace_codepoints", ys::replace_codepoints(is, a, b, it)), model::splice(s, {r2}, text), ctx);
    if (r1.len) EV("replaced"); else EV("replaced-empty-range");
    if ((a < 0) != (b < 0)) EV("mixed-signs");
}
void prop_case(Src& src)
{
    auto t = gen::text(src, gen::MARKS);
    auto s = model::enc(t);
    auto cp = model::codepoints(s), ch = model::chars(s);
    In is(s);
    auto text = src.chance(1, 8) ? gen::bytes(src) : gen::utf8(src);
    if (text.size() > 2000) text.resize(2000);
    for (int k = 0; k < 4; ++k)
    {
        auto i = gen::index(src, src.chance(1, 2) ? cp.size() : ch.size());
        insert(s, is, cp, ch, i, text, gen::cp(src));
        fw::note(fw::Hash().add(s).add(uint64_t(i)).add(text).h, !s.empty());
    }
    for (int k = 0; k < 5; ++k)
    {
        auto n = src.chance(1, 2) ? cp.size() : ch.size();
        auto a = gen::index(src, n), b = src.chance(1, 6) ? a : gen::index(src, n);
        replace(s, is, cp, ch, a, b, text);
        fw::note(fw::Hash().add(s).add(uint64_t(a)).add(uint64_t(b)).add(text).h, !s.empty());
    }
    if (src.chance(1, 6)) fw::sample(esc32(t) + " + " + esc(text, 40));
}
static const char32_t AB[] = {'a', 0x301, 0x1F600, 0xE5};
// Also texts of up to 150 characters, and insertions of all lengths up to 300.
static uint64_t strings() { return fw::tier_thorough() ? 1365 : 341; }
uint64_t prop_exhaustive_count() { return strings() + 150 + gen::LONG_SWEEPS; }
// Texts and insertions of all lengths
static void lengths(uint32_t k)
{
    uint64_t p = 0;
    for (auto n : gen::long_sizes(k))
    {
        unsigned kind = n % 3 == 2 ? 2 : n % 3;
        auto text = model::enc(gen::long_text(n, kind));
        for (auto s : {string("ab\xCC\x81" "c\xE2\x82\xAC" "d"), string(), string("x")})
        {
            auto cp = model::codepoints(s), ch = model::chars(s);
            In is(s);
            for (ptrdiff_t i : {0, 1, 2, 3, -1, -3, -7}) { insert(s, is, cp, ch, i, text, 0xE5); ++p; }
            for (ptrdiff_t i : {0, 1, -2}) for (ptrdiff_t j : {ptrdiff_t(1), ptrdiff_t(4), ptrdiff_t(-1), PTRDIFF_MAX}) { replace(s, is, cp, ch, i, j, text); ++p; }
        }
        auto cp = model::codepoints(text), ch = model::chars(text);
        auto m = ptrdiff_t(cp.size());
        In is(text);
        for (ptrdiff_t i : {ptrdiff_t(0), ptrdiff_t(1), m / 2, m - 1, m, m + 1, ptrdiff_t(-1), -m / 2, -m + 1, -m, -m - 1})
        {
            insert(text, is, cp, ch, i, "\xE2\x82\xAC--", 0x1F600);
            for (auto j : {m / 2 + 1, m - 1, m, ptrdiff_t(-1), PTRDIFF_MAX}) { replace(text, is, cp, ch, i, j, "xyz"); ++p; }
            if (i >= 0) replace(text, is, cp, ch, i, m - i, text);
        }
    }
    fw::exhaustive_points(p);
}
static void indices(size_t n)
{
    uint64_t p = 0;
    string text;
    for (size_t k = 0; k < 2 * n; ++k) text += char('A' + k % 26);
    for (auto& unit : {u32string(U"abcdefghij"), u32string(U"\u00E5"), u32string(U"a\u0301"), u32string(U"\U0001F600\u0301ab\u4E00")})
    {
        u32string t;
        while (t.size() < n) t += unit;
        auto s = model::enc(t);
        auto cp = model::codepoints(s), ch = model::chars(s);
        In is(s);
        auto m = ptrdiff_t(cp.size());
        for (ptrdiff_t i = -m - 1; i <= m + 1; i += m > 20 && i > -m + 4 && i < m - 6 ? 4 : 1)
        {
            insert(s, is, cp, ch, i, string_view(text).substr(0, size_t(i + m + 1) % (text.size() + 1)), 0xE5);
            for (auto j : {ptrdiff_t(PTRDIFF_MAX), i + 1, i + m / 2, i + m}) { replace(s, is, cp, ch, i, j, string_view(text).substr(0, (size_t(i) + size_t(j)) % (text.size() + 1))); ++p; }
        }
        insert(s, is, cp, ch, m / 2, text, 0x1F600);
        insert(s, is, cp, ch, 0, text, 0x1F600);
        insert(s, is, cp, ch, -1, string_view(text).substr(1), 0x7F);
    }
    fw::exhaustive_points(p);
}
void prop_exhaustive(uint64_t i)
{
    if (i >= strings() + 150) return lengths(uint32_t(i - strings() - 150));
    if (i >= strings()) return indices(size_t(i - strings() + 1));
    u32string t;
    for (uint64_t len = 0, base = 1; ; ++len, base *= 4)
    {
        if (i < base) { for (uint64_t k = 0; k < len; ++k, i /= 4) t += AB[i % 4]; break; }
        i -= base;
    }
    auto s = model::enc(t);
    auto cp = model::codepoints(s), ch = model::chars(s);
    In is(s);
    auto n = ptrdiff_t(cp.size());
    std::vector<ptrdiff_t> idx = {PTRDIFF_MIN, PTRDIFF_MIN + 1, PTRDIFF_MAX, PTRDIFF_MAX - 1};
    for (auto k = -n - 2; k <= n + 2; ++k) idx.push_back(k);
    uint64_t p = 0;
    for (auto a : idx)
    {
        insert(s, is, cp, ch, a, "xy", 0x20AC);
        insert(s, is, cp, ch, a, "", 'z');
        for (auto b : idx) { replace(s, is, cp, ch, a, b, "xyz"); ++p; if (n < 3) replace(s, is, cp, ch, a, b, ""); }
    }
    fw::exhaustive_points(p);
}
