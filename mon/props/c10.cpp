#include "../common.hpp"
#include <Ystring/Normalize.hpp>
const char* const PROP_ID = "C10";
void prop_init()
{
    uni::load();
    for (auto n : {"composed", "composed-twice", "composed-at-end", "two-composed-adjacent", "unchanged", "base>=1000", "long", "every-pair"}) fw::require(n);
}
static void judge(const u32string& t, bool laws = true)
{
    auto s = model::enc(t);
    auto m = model::composed(t);
    auto e = model::enc(m);
    In is(s);
    auto ctx = "(" + esc32(t) + ")";
    auto r = CALL("to_composed", ys::to_composed(is));
    expect_str("to_composed", r, e, ctx);
    if (!laws) return;
    In ic(r.v);
    auto r2 = CALL("to_composed", ys::to_composed(ic));
    expect_str("to_composed", r2, e, ctx + ", repeated");
    auto d1 = CALL("to_decomposed", ys::to_decomposed(is)), d2 = CALL("to_decomposed", ys::to_decomposed(ic));
    if (d1.ok() && d2.ok() && d1.v != d2.v) FAIL("decomposed-differs", "decomposing " + esc32(t) + " and its composed form gives different results");
    if (m.size() == t.size()) EV("unchanged");
    else
    {
        EV("composed");
        if (m.size() + 2 <= t.size()) EV("composed-twice");
        u32string w(t.begin(), t.end() - 1);
        if (model::composed(w).size() == m.size()) EV("composed-at-end");
    }
    size_t adj = 0;
    for (size_t i = 1; i < m.size(); ++i) if (uni::decomp.count(m[i]) && uni::decomp.count(m[i - 1]) && m.size() < t.size()) ++adj;
    if (adj) EV("two-composed-adjacent");
    if (m.size() < t.size()) for (auto c : m) if (c >= 0x1000 && uni::decomp.count(c) && uni::decomp[c].first >= 0x1000) EV("base>=1000");
    if (s.size() > 4096) EV("long");
    fw::note(fw::Hash().add(s).h, !s.empty());
}
void prop_case(Src& src)
{
    auto t = gen::text(src, gen::COMPOSE);
    judge(t);
    if (src.chance(1, 6)) fw::sample(esc32(t));
    // A composable pair with anything around it
    auto it = uni::decomp.begin();
    std::advance(it, src.below(uint32_t(uni::decomp.size())));
    auto [a, b] = it->second;
    u32string p = {char32_t(a), char32_t(b)};
    for (auto k = src.below(3); k; --k) gen::add_cp(src, p, gen::COMPOSE);
    if (src.chance(1, 2)) p.insert(p.begin(), char32_t(gen::cp(src)));
    if (src.chance(1, 3)) p += p;
    judge(p);
    if (src.chance(1, 200) && !t.empty())
    {
        u32string l;
        auto n = 3000 + src.below(70000);
        while (l.size() < n) l += t;
        judge(l);
    }
}
// All database pairs in every arrangement with plain neighbours; every code
// point next to marks, and every pair near a database pair.
static uint64_t others() { return 0x1100 + uni::composed.size(); }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
// Texts of all lengths: plain ones, composed ones, decomposed ones
static uint64_t lengths(uint32_t k)
{
    static const u32string units[] = {U"a", U"\u00E5", U"e\u0301", U"\u1EA4", U"A\u0302\u0301", U"\uAC00", U"\u0301", U"\u4E00", U"\u1E69", U"\U0001F600", U"o\u031B\u0323x", U"\u0344", U"\U0001D15E", U"ab\u00C5", U"\u0105"};
    uint64_t p = 0;
    p += gen::pairs(k, [&](char32_t x, char32_t y) { judge({x, y}, false); judge({0xE5, x, y, 0x301}, false); judge({'e', x, 0x301, y}, false); });
    for (auto n : gen::long_sizes(k))
    {
        judge(gen::long_text(n, 2), n % 8 == 0);
        for (size_t j = 0; j < 3; ++j)
        {
            auto& u = units[(n * 3 + j) % std::size(units)];
            u32string w;
            while (w.size() < n) w += u;
            w.resize(n);
            judge(w, false); judge(w + U"\u0301", false); judge(w + U"\u1EA4\u0301z", false); judge(U"E\u0301" + w + U"e\u0301", false); judge(U"\u00C5x" + w, false);
            p += 5;
        }
        ++p;
    }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    uint64_t n = 0;
    auto j = [&](const u32string& t, bool laws = false) { judge(t, laws); ++n; };
    if (i < 0x1100)
    {
        for (uint32_t k = 0; k < 256; ++k)
        {
            auto c = char32_t(i * 256 + k);
            j({c});
            j({c, 0x301, c});
            j({'a', c, 'e', c});
            j({0xE2, c, 0x30A, c});
        }
    }
    else
    {
        auto c = uni::composed[i - 0x1100];
        auto a = char32_t(uni::decomp[c].first), b = char32_t(uni::decomp[c].second), cc = char32_t(c);
        auto d = uni::decompose(c);
        for (auto& base : {u32string{a, b}, d, u32string{cc}, u32string{a, b, b}, u32string{a, a, b}, u32string{a, b, a, b}, u32string{cc, b}, u32string{b, a}, u32string{cc, a, b}, d + d, d + u32string{b}})
            for (auto& pre : {u32string{}, u32string{'x'}, u32string{'x', 'y'}, u32string{'a'}, u32string{0x1F600}})
                for (auto& post : {u32string{}, u32string{'z'}, u32string{'z', 'w'}, u32string{0x301}, u32string{'e', 0x301}, u32string{'e', 0x301, 'f', 0x30C}})
                    j(pre + base + post, pre.size() + post.size() < 2);
        // Near misses in every bit
        for (int bit = 0; bit < 21; ++bit)
        {
            auto a2 = a ^ char32_t(1u << bit), b2 = b ^ char32_t(1u << bit);
            if (a2 <= uni::MAX) j({a2, b, 'q'});
            if (b2 <= uni::MAX) j({a, b2, 'q'});
        }
        // With the second parts of all others
        for (auto m : {0x300, 0x301, 0x302, 0x303, 0x304, 0x306, 0x307, 0x308, 0x309, 0x30A, 0x30B, 0x30C, 0x30F, 0x311, 0x313, 0x314, 0x31B, 0x323, 0x324, 0x325, 0x326, 0x327, 0x328, 0x32D, 0x32E, 0x330, 0x331, 0x338, 0x342, 0x345, 0x653, 0x654, 0x655, 0x93C, 0x3099, 0x309A})
        { j({a, char32_t(m), 'q'}); j({cc, char32_t(m)}); }
    }
    fw::exhaustive_points(n);
}
