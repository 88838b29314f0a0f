#include "../common.hpp"
const char* const PROP_ID = "C15";
void prop_init()
{
    uni::load();
    for (auto n : {"replaced", "no-match", "limited-forwards", "limited-backwards", "overlapping", "direction-matters", "match-at-end", "empty-from", "empty-to", "longer", "from-in-to", "extreme-limit", "codepoint",
                   "call:replace_codepoint:throw", "every-pair"}) fw::require(n);
}
static std::vector<Range> matches(string_view s, string_view from, ptrdiff_t limit)
{
    auto first = [&](size_t p) { auto x = model::find_first(s, from, p); return Range{x, x == NONE ? 0 : from.size()}; };
    auto last = [&](size_t p) { auto x = model::find_last(s, from, p); return Range{x, x == NONE ? 0 : from.size()}; };
    return limit >= 0 ? model::matches_fwd(s.size(), first, size_t(limit)) : model::matches_bwd(s.size(), last, size_t(0) - size_t(limit));
}
static void judge(string_view s, string_view from, string_view to, ptrdiff_t limit, bool with_default = false)
{
    auto m = matches(s, from, limit);
    In is(s), f(from), t(to);
    auto ctx = "(" + esc(s) + ", " + esc(from) + ", " + esc(to) + ", " + num(limit) + ")";
    auto e = model::splice(s, m, to);
    expect_str("replace", CALL("replace", ys::replace(is, f, t, limit)), e, ctx);
    if (with_default)
        expect_str("replace", CALL("replace", ys::replace(is, f, t)), model::splice(s, matches(s, from, PTRDIFF_MAX), to), ctx + " default limit");
    if (m.empty()) EV("no-match");
    else
    {
        EV("replaced");
        if (limit > 0 && m.size() == size_t(limit)) EV("limited-forwards");
        if (limit < 0 && m.size() == size_t(0) - size_t(limit)) EV("limited-backwards");
        if (m.back().end() == s.size()) EV("match-at-end");
        if (model::find_first(s, from, m[0].off + 1) < m[0].end()) EV("overlapping");
        if (m != matches(s, from, limit >= 0 ? (limit == PTRDIFF_MAX ? PTRDIFF_MIN : -limit) : PTRDIFF_MAX)) EV("direction-matters");
        if (to.find(from) != to.npos) EV("from-in-to");
        if (to.size() > from.size()) EV("longer");
        if (to.empty()) EV("empty-to");
        if (limit > (ptrdiff_t(1) << 40) || limit < -(ptrdiff_t(1) << 40)) EV("extreme-limit");
    }
    if (from.empty()) EV("empty-from");
    fw::note(fw::Hash().add(s).add(from).add(to).add(uint64_t(limit)).h, !s.empty() && !from.empty());
}
void prop_case(Src& src)
{
    string s, f, t;
    if (src.chance(1, 2)) { s = gen::bytes(src); f = gen::byte_pattern(src, s); t = src.chance(1, 3) ? gen::byte_pattern(src, s) : gen::bytes(src); }
    else { auto x = gen::text(src); auto p = gen::pattern(src, x); s = model::enc(x); f = model::enc(p); t = model::enc(src.chance(1, 3) ? gen::pattern(src, p) : gen::text(src)); }
    if (t.size() > 300) t.resize(300);
    if (src.chance(1, 8)) t = f + t;
    if (src.chance(1, 8)) t = f + f;
    if (s.size() > 2000 && f.size() < 3) t.resize(std::min<size_t>(t.size(), 20));
    judge(s, f, t, PTRDIFF_MAX, true);
    for (int i = 0; i < 3; ++i)
        judge(s, f, t, gen::limit(src, 5));
    if (src.chance(1, 6)) fw::sample("replace " + esc(f, 30) + " by " + esc(t, 30) + " in " + esc(s, 60));

    auto x = gen::text(src);
    auto xs = model::enc(x);
    uint32_t a = !x.empty() && src.chance(2, 3) ? x[src.below(uint32_t(x.size()))] : gen::cp(src), b = gen::cp(src, a);
    auto limit = src.chance(1, 3) ? PTRDIFF_MAX : gen::limit(src, 5);
    In is(xs);
    auto ctx = "(" + esc(xs) + ", U+" + hexs(a) + ", U+" + hexs(b) + ", " + num(limit) + ")";
    expect_str("replace_codepoint", CALL("replace_codepoint", ys::replace_codepoint(is, char32_t(a), char32_t(b), limit)), model::splice(xs, matches(xs, model::enc(a), limit), model::enc(b)), ctx);
    if (src.chance(1, 4)) expect_str("replace_codepoint", CALL("replace_codepoint", ys::replace_codepoint(is, char32_t(a), char32_t(b))), model::splice(xs, matches(xs, model::enc(a), PTRDIFF_MAX), model::enc(b)), ctx + " default limit");
    EV("codepoint");
    if (src.chance(1, 8))
    {
        uint32_t bad = src.chance(1, 2) ? 0x110000 + src.below(0x200000) : src.u32() | 0x80000000u;
        expect_throw("replace_codepoint", CALL("replace_codepoint", ys::replace_codepoint(is, char32_t(bad), char32_t(b), limit)), "(" + esc(xs) + ", U+" + hexs(bad) + ", U+" + hexs(b) + ")");
        expect_throw("replace_codepoint", CALL("replace_codepoint", ys::replace_codepoint(is, char32_t(a), char32_t(bad), limit)), "(" + esc(xs) + ", U+" + hexs(a) + ", U+" + hexs(bad) + ")");
    }
}
// All strings up to length 8 over {a, b}, patterns up to length 3, all small limits.
// Also any number of matches up to 520.
static uint64_t strings() { return fw::tier_thorough() ? 2048 : 512; }
uint64_t prop_exhaustive_count() { return strings() + 520 + gen::LONG_SWEEPS; }
// Texts, patterns and replacements of all lengths
static void lengths(uint32_t k)
{
    uint64_t points = 0;
    points += gen::pairs(k, [&](char32_t x, char32_t y)
    {
        auto a = model::enc(x), b = model::enc(y);
        judge(a + b + a, b, "--", PTRDIFF_MAX);
        judge(a + "-" + a + b + b, a + b, b, -1);
        judge(b + a + b, b, "", 1);
        judge(b + a + b, "-", a, 1);
        judge(a + "-" + b, "-", b + a, PTRDIFF_MAX);
    });
    auto both = [&](string_view s, string_view f, string_view t) { for (auto l : {PTRDIFF_MAX, PTRDIFF_MIN, ptrdiff_t(1), ptrdiff_t(-1)}) { judge(s, f, t, l); ++points; } };
    for (auto n : gen::long_sizes(k))
    {
        auto kind = n % 3 == 2 ? 2 : 0;
        auto c = model::enc(gen::long_text(n, kind)), o = model::enc(gen::long_text(n, kind + 4));
        both("x,y,,z", ",", c);
        both(",", ",", c);
        both("\xC3\xA5--", "--", c);
        both(c + "," + c, ",", "\xE2\x82\xAC");
        both(c + ",", ",", c);
        if (c.empty()) continue;
        string near;
        for (size_t at : {size_t(0), c.size() / 2, c.size() - 1})
        {
            auto x = c;
            x[at] ^= 1;
            near += x;
        }
        auto s = "a" + c + near + c + "b";
        both(s, c, "Q");
        both(s, c, "");
        both(c, c, o);
        both(c + c, c, o);
        both(near, c, "--");
        both(near + c, c, c + "!");
        both(c + c.substr(1), c, "12");
        both(c.substr(0, c.size() - 1), c, "12");
    }
    fw::exhaustive_points(points);
}
static void counts(size_t count)
{
    uint64_t n = 0;
    struct K { const char* part; const char* from; const char* to; };
    static const K kinds[] = {{"ab", ",", ";"}, {"", ",", "12"}, {"", "aa", "a"}, {"\xC3\xA5", "\n", "\r\n"}, {"x", "\xE2\x80\xA8", ""}, {"1", "--", "-"}, {"abcdefghijklmnopqrstuvw", "; ", "; ; "}, {"", "abcdefgh", "ABCDEFGH"}, {"a", "aab", "a"}};
    for (auto& k : kinds)
    {
        string s;
        for (size_t j = 0; j < count; ++j) { s += k.part; s += k.from; }
        s += k.part;
        for (auto l : {PTRDIFF_MAX, PTRDIFF_MIN, ptrdiff_t(count), -ptrdiff_t(count), ptrdiff_t(count / 2 + 1), -ptrdiff_t(count / 2 + 1), ptrdiff_t(1), ptrdiff_t(-1)}) { judge(s, k.from, k.to, l); ++n; }
        In is(s);
        auto from = model::cps(k.from), to = model::cps(k.to);
        if (from.size() == 1 && to.size() == 1)
        {
            for (auto l : {PTRDIFF_MAX, PTRDIFF_MIN, ptrdiff_t(count / 2 + 1), -ptrdiff_t(count / 2 + 1)})
                expect_str("replace_codepoint", CALL("replace_codepoint", ys::replace_codepoint(is, from[0], to[0], l)), model::splice(s, matches(s, k.from, l), k.to), "(" + esc(s) + ", " + num(l) + ")");
        }
    }
    fw::exhaustive_points(n);
}
void prop_exhaustive(uint64_t i)
{
    if (i >= strings() + 520) return lengths(uint32_t(i - strings() - 520));
    if (i >= strings()) return counts(size_t(i - strings() + 1));
    string s;
    for (auto k = i; k > 1; k >>= 1) s += char('a' + (k & 1));
    uint64_t n = 0;
    for (unsigned j = 0; j < 16; ++j)
    {
        string f;
        for (auto k = j; k > 1; k >>= 1) f += char('a' + (k & 1));
        for (auto to : {"", "b", "aa", "xyz"})
            for (ptrdiff_t l : {ptrdiff_t(1), ptrdiff_t(2), ptrdiff_t(3), ptrdiff_t(-1), ptrdiff_t(-2), ptrdiff_t(-3), PTRDIFF_MAX, PTRDIFF_MIN}) { judge(s, f, to, l); ++n; }
    }
    fw::exhaustive_points(n);
}
