#include "../common.hpp"
const char* const PROP_ID = "C08";
void prop_init()
{
    uni::load();
    for (auto n : {"upper-longer", "upper-shorter", "lower-longer", "lower-shorter", "sharp-s", "title-word-start", "title-within-word", "mark-or-digit-breaks-word", "long", "every-pair"}) fw::require(n);
}
static void judge(const u32string& t, bool events = true)
{
    auto s = model::enc(t);
    auto v = model::parse(s);
    In is(s);
    auto ctx = "(" + esc32(t) + ")";
    auto u = model::upper(v), l = model::lower(v), c = model::title(v);
    expect_str("to_upper", CALL("to_upper", ys::to_upper(is.sv())), u, ctx);
    expect_str("to_lower", CALL("to_lower", ys::to_lower(is.sv())), l, ctx);
    expect_str("to_title", CALL("to_title", ys::to_title(is.sv())), c, ctx);
    if (!events) return;
    if (u.size() > s.size()) EV("upper-longer");
    if (u.size() < s.size()) EV("upper-shorter");
    if (l.size() > s.size()) EV("lower-longer");
    if (l.size() < s.size()) EV("lower-shorter");
    bool prev = false;
    for (auto ch : t)
    {
        if (ch == 0xDF) EV("sharp-s");
        bool letter = uni::is_letter(ch);
        if (letter && !prev) EV("title-word-start");
        if (letter && prev) EV("title-within-word");
        if (!letter && prev) EV("mark-or-digit-breaks-word");
        prev = letter;
    }
    if (s.size() > 4096) EV("long");
    fw::note(fw::Hash().add(s).h, !s.empty());
}
void prop_case(Src& src)
{
    auto t = gen::text(src, gen::CASE);
    judge(t);
    if (src.chance(1, 6)) fw::sample(esc32(t));
    if (src.chance(1, 200) && !t.empty())
    {
        u32string l;
        auto n = 6000 + src.below(70000);
        while (l.size() < n) l += t;
        judge(l);
    }
}
// Every code point alone, after a letter, and before a letter; those with case
// mappings and other remarkable ones also in words of many lengths and kinds.
static uint64_t others() { return 0x1100 + 256; }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
static const std::vector<uint32_t>& remarkable()
{
    static const auto v = []
    {
        std::vector<uint32_t> r = gen::special();
        r.insert(r.end(), uni::cased.begin(), uni::cased.end());
        r.insert(r.end(), uni::odd_case.begin(), uni::odd_case.end());
        for (size_t k = 0; k < uni::marks.size(); k += 7) r.push_back(uni::marks[k]);
        for (size_t k = 0; k < uni::class_edges.size(); k += 3) r.push_back(uni::class_edges[k]);
        std::sort(r.begin(), r.end());
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }();
    return v;
}
static void in_words(char32_t c)
{
    static const u32string units[] = {U"a", U"Z", U"\u00E5", U"\u0416", U"\u4E00", U"1", U" ", U"i\u0307", U"\u1E9E"};
    for (auto& u : units)
        for (size_t k : {1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 64})
        {
            u32string w;
            for (size_t j = 0; j < k; ++j) w += u;
            judge(w + c, false);
            if (k == 2 || k == 8 || k == 16 || k == 32) { judge(c + w, false); judge(w + c + w, false); judge(w + c + U" " + c + w, false); judge(w + c + c, false); }
        }
    static const u32string around[] = {U"", U"a", U"A", U" ", U"1", U"'", U"\u0301", U"\u0345", U".", U"\u03A3", U"\u00DF", U"\u0130", U"I", U"\u01C5"};
    for (auto& a : around) for (auto& b : around) judge(a + c + b, false);
}
// Words, gaps and texts of all lengths
static uint64_t lengths(uint32_t k)
{
    static const u32string units[] = {U"a", U"Z", U"\u00DF", U"\u0130", U"\u0149", U"\u1E9E", U"\u01C5", U"\U00010428", U"\u0390", U"\u4E00", U"1", U" ", U"\u0301", U"\u0345", U"\u03A3", U"a1", U"ab ", U"-\u00E5x"};
    uint64_t p = 0;
    p += gen::pairs(k, [&](char32_t x, char32_t y) { judge({x, y}, false); judge({'a', x, y, 'B'}, false); judge({0xC5, y, ' ', x, 0xE5, y}, false); });
    for (auto n : gen::long_sizes(k))
    {
        judge(gen::long_text(n, 0), false);
        judge(gen::long_text(n, 2), false);
        for (size_t j = 0; j < 3; ++j)
        {
            auto& u = units[(n * 3 + j) % std::size(units)];
            u32string w;
            while (w.size() < n) w += u;
            judge(w, false); judge(w + U"a", false); judge(U"a" + w + U"\u00E5b", false); judge(U"\u01C6" + w + U" \u01C6", false);
            p += 4;
        }
        p += 2;
    }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    if (i >= 0x1100)
    {
        auto& r = remarkable();
        uint64_t n = 0;
        for (size_t k = i - 0x1100; k < r.size(); k += 256) { in_words(char32_t(r[k])); ++n; }
        fw::exhaustive_points(n * (9 * (12 + 16) + 14 * 14));
        return;
    }
    for (uint32_t k = 0; k < 256; ++k)
    {
        auto c = char32_t(i * 256 + k);
        judge({c}, false);
        judge({'a', c, 0xE5, ' ', c, c, 0xDF}, false);
    }
    fw::exhaustive_points(512);
}
