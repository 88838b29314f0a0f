#include "../common.hpp"
const char* const PROP_ID = "C11";
void prop_init()
{
    uni::load();
    for (auto n : {"hit", "miss", "empty-needle", "overlapping", "offset>0", "hit-at-end", "call:contains:value", "call:contains:throw", "every-pair"}) fw::require(n);
}
static void judge(string_view s, string_view c, size_t off, bool big)
{
    In is(s), ic(c);
    auto ctx = "(" + esc(s) + ", " + esc(c) + ", " + std::to_string(off) + ")";
    auto e1 = model::find_first(s, c, off);
    auto r1 = CALL("find_first", ys::find_first(is, ic, off));
    expect_range("find_first", r1, {e1, e1 == NONE ? 0 : c.size()}, ctx);
    if (e1 == NONE && !c.empty() && r1.v.offset != s.size())
        FAIL("not-found:find_first", "find_first" + ctx + " = " + str(r1.v) + ", expected the end of the string");
    auto e2 = model::find_last(s, c, off);
    auto r2 = CALL("find_last", ys::find_last(is, ic, off));
    expect_range("find_last", r2, {e2, e2 == NONE ? 0 : c.size()}, ctx);
    if (e2 == NONE && !c.empty() && r2.v.offset != 0)
        FAIL("not-found:find_last", "find_last" + ctx + " = " + str(r2.v) + ", expected the start of the string");
    if (off == 0)
    {
        expect_range("find_first", CALL("find_first", ys::find_first(is, ic)), {e1, e1 == NONE ? 0 : c.size()}, ctx + " (default offset)");
        auto e3 = model::find_last(s, c, NONE);
        expect_range("find_last", CALL("find_last", ys::find_last(is, ic)), {e3, e3 == NONE ? 0 : c.size()}, ctx + " (default offset)");
        expect_eq("starts_with", CALL("starts_with", ys::starts_with(is, ic)), c.size() <= s.size() && s.substr(0, c.size()) == c, ctx);
        expect_eq("ends_with", CALL("ends_with", ys::ends_with(is, ic)), c.size() <= s.size() && s.substr(s.size() - c.size()) == c, ctx);
    }
    if (e1 != NONE || e2 != NONE) EV("hit"); else EV("miss");
    if (c.empty()) EV("empty-needle");
    if (off) EV("offset>0");
    if (e1 != NONE && e1 + c.size() == s.size()) EV("hit-at-end");
    if (e1 != NONE && model::find_first(s, c, e1 + 1) < e1 + c.size()) EV("overlapping");
    (void)big;
    fw::note(fw::Hash().add(s).add(c).add(off).h, !s.empty() && !c.empty());
}
void prop_case(Src& src)
{
    string s, c;
    if (src.chance(1, 2)) { s = gen::bytes(src); c = gen::byte_pattern(src, s); }
    else { auto t = gen::text(src); s = model::enc(t); c = model::enc(gen::pattern(src, t)); }
    if (src.chance(1, 16)) std::swap(s, c);
    judge(s, c, 0, false);
    int n = s.size() > 2000 ? 2 : 4;
    for (int i = 0; i < n; ++i)
        judge(s, c, src.below(uint32_t(s.size()) + 1), true);
    // Offsets around an occurrence, and beyond the end for find_last.
    if (auto e = model::find_first(s, c, 0); e != NONE)
        for (auto o : {e, e + 1, e + c.size() - 1, e + c.size()})
            if (o <= s.size()) judge(s, c, o, true);
    if (src.chance(1, 4))
    {
        In is(s), ic(c);
        auto off = s.size() + 1 + src.below(3) * 1000;
        auto e = model::find_last(s, c, off);
        expect_range("find_last", CALL("find_last", ys::find_last(is, ic, off)), {e, e == NONE ? 0 : c.size()}, "(" + esc(s) + ", " + esc(c) + ", beyond the end)");
    }
    if (src.chance(1, 8)) fw::sample("find " + esc(c, 40) + " in " + esc(s, 60));
    // Code point membership
    auto t = gen::text(src);
    auto ts = model::enc(t);
    In it(ts);
    for (int i = 0; i < 3; ++i)
    {
        uint32_t ch = !t.empty() && src.chance(1, 2) ? t[src.below(uint32_t(t.size()))] : gen::cp(src, t.empty() ? 'a' : t.back());
        expect_eq("contains", CALL("contains", ys::contains(it.sv(), char32_t(ch))), t.find(char32_t(ch)) != t.npos, "(" + esc(ts) + ", U+" + hexs(ch) + ")");
    }
    auto bad = ts + (src.chance(1, 2) ? "\x80" : "\xE2\x82");
    In ib(bad);
    auto r = CALL("contains", ys::contains(ib.sv(), U'\x10FFF0'));
    if (t.find(char32_t(0x10FFF0)) == t.npos) expect_throw("contains", r, "(" + esc(bad) + ", U+10FFF0)");
}
// All needles and haystacks over a two letter alphabet up to lengths 4 and 9;
// a match at every distance up to 600 from the start, the end and the offset.
constexpr uint64_t DISTANCES = 600;
static uint64_t n_words() { return fw::tier_thorough() ? 4096 : 1024; }
static void distance(size_t d)
{
    uint64_t n = 0;
    for (size_t len : {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 128, 256, 257})
    {
        string c;
        for (size_t k = 0; k < len; ++k) c += char('a' + (k * 7 + k / 26) % 26);
        for (int kind = 0; kind < 3; ++kind)
        {
            // Unlike the pattern; only parts of it; bytes above 127.
            string unit = kind == 0 ? "." : kind == 1 ? len == 1 ? "." : c.substr(0, len - 1) : "\xC3\xA5", fill;
            while (fill.size() < d) fill += unit;
            fill.resize(d);
            auto pre = string(d % 5, '-');
            auto s = pre + fill + c;
            judge(s, c, 0, false);
            judge(s, c, pre.size(), false); // the offset is d before the match
            s = c + fill + pre;
            judge(s, c, s.size(), false);
            judge(s, c, c.size() + d, false); // the offset is d behind the match
            n += 4;
        }
    }
    fw::exhaustive_points(n);
}
uint64_t prop_exhaustive_count() { return n_words() + DISTANCES + gen::LONG_SWEEPS; }
// Patterns of all lengths, in texts where only their first or last byte, or one in the middle, is wrong
static void long_patterns(uint32_t k)
{
    uint64_t points = 0;
    points += gen::pairs(k, [&](char32_t x, char32_t y)
    {
        auto a = model::enc(x), b = model::enc(y);
        judge(a + b + a, b, 0, false);
        judge(a + "-" + a + b + b, a + b, 0, false);
        judge(b + a + b, b + a, 1, false);
    });
    for (auto n : gen::long_sizes(k))
        for (unsigned kind : {0u, 2u})
        {
            auto c = model::enc(gen::long_text(n, kind));
            if (c.empty()) continue;
            string near;
            for (size_t at : {size_t(0), c.size() / 2, c.size() - 1})
            {
                auto x = c;
                x[at] ^= 1;
                near += x;
                judge(x, c, 0, false);
            }
            judge(near, c, 0, false);
            judge(near + c + near.substr(0, 7), c, 0, false);
            judge(near + c + near, c, near.size(), false);
            judge(near + c + near, c, near.size() + c.size(), false);
            judge(c + c.substr(1), c, 1, false);
            judge(c, c, 0, false);
            judge(c.substr(0, c.size() - 1), c, 0, false);
            judge("-" + c, c.substr(1), 0, false);
            judge(c, "x", 0, false);
            judge(c, "\xE2\x82\xAC", c.size() / 2, false);
            points += 12;
        }
    fw::exhaustive_points(points);
}
void prop_exhaustive(uint64_t i)
{
    // i encodes a haystack: a leading 1 bit followed by its letters.
    if (i == 0) return;
    if (i >= n_words() + DISTANCES) return long_patterns(uint32_t(i - n_words() - DISTANCES));
    if (i >= n_words()) return distance(i - n_words());
    string s;
    for (auto k = i; k > 1; k >>= 1) s += char('a' + (k & 1));
    uint64_t n = 0;
    for (unsigned j = 1; j < 32; ++j)
    {
        string c;
        for (auto k = j; k > 1; k >>= 1) c += char('a' + (k & 1));
        for (size_t off = 0; off <= s.size(); ++off) { judge(s, c, off, false); ++n; }
    }
    fw::exhaustive_points(n);
}
