#include "../common.hpp"
#include <Ystring/Normalize.hpp>
const char* const PROP_ID = "C09";
void prop_init()
{
    uni::load();
    for (auto n : {"expanded", "expanded-to-3-or-more", "plain-between-expanded", "unchanged", "beyond", "long", "call:to_decomposed:value", "every-pair"}) fw::require(n);
}
static void judge(const u32string& t, bool laws = true)
{
    auto s = model::enc(t), e = model::enc(model::decomposed(t));
    In is(s);
    auto ctx = "(" + esc32(t) + ")";
    auto r = CALL("to_decomposed", ys::to_decomposed(is));
    expect_str("to_decomposed", r, e, ctx);
    if (!laws) return;
    In id(r.v);
    expect_str("to_decomposed", CALL("to_decomposed", ys::to_decomposed(id)), e, ctx + ", repeated");
    auto k = CALL("to_composed", ys::to_composed(is));
    if (k.ok())
    {
        In ik(k.v);
        expect_str("to_decomposed", CALL("to_decomposed", ys::to_decomposed(ik)), e, ctx + ", composed before");
    }
    bool gap = false, any = false;
    for (auto c : t)
    {
        auto d = uni::decompose(c);
        if (d.size() > 1) { EV("expanded"); if (d.size() > 2) EV("expanded-to-3-or-more"); if (gap) EV("plain-between-expanded"); any = true; gap = false; }
        else gap = any;
    }
    if (!any) EV("unchanged");
    if (s.size() > 4096) EV("long");
    fw::note(fw::Hash().add(s).h, !s.empty());
}
static void one(uint32_t c)
{
    auto r = CALL("decompose", ys::decompose(char32_t(c)));
    auto e = uni::decompose(c);
    if (!r.ok() || r.v != e) FAIL("value:decompose", "decompose(U+" + hexs(c) + ") = " + esc32(r.v) + ", expected " + esc32(e));
}
void prop_case(Src& src)
{
    auto t = gen::text(src, gen::COMPOSE);
    judge(t);
    if (src.chance(1, 6)) fw::sample(esc32(t));
    for (int i = 0; i < 4; ++i)
    {
        auto c = src.chance(1, 3) ? src.u32() : gen::cp(src);
        if (src.chance(1, 2)) c ^= 1u << src.below(32);
        if (c > uni::MAX) EV("beyond");
        one(c);
    }
    if (src.chance(1, 200) && !t.empty())
    {
        u32string l;
        auto n = 3000 + src.below(70000);
        while (l.size() < n) l += t;
        judge(l);
    }
}
static uint64_t others() { return 0x1100 + 4096; }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
// Texts of all lengths: plain ones, composed ones, decomposed ones
static uint64_t lengths(uint32_t k)
{
    static const u32string units[] = {U"a", U"\u00E5", U"e\u0301", U"\u1EA4", U"A\u0302\u0301", U"\uAC00", U"\u0301", U"\u4E00", U"\u1E69", U"\U0001F600", U"o\u031B\u0323x", U"\u0344", U"\U0001D15E", U"ab\u00C5", U"\u0105"};
    uint64_t p = 0;
    p += gen::pairs(k, [&](char32_t x, char32_t y) { judge({x, y}, false); judge({0xE5, x, y, 0x301}, false); judge({'e', x, 0x301, y}, false); });
    for (auto n : gen::long_sizes(k))
    {
        judge(gen::long_text(n, 2), n % 8 == 0);
        for (size_t j = 0; j < 3; ++j)
        {
            auto& u = units[(n * 3 + j) % std::size(units)];
            u32string w;
            while (w.size() < n) w += u;
            w.resize(n);
            judge(w, false); judge(w + U"\u0301", false); judge(w + U"\u1EA4\u0301z", false); judge(U"E\u0301" + w + U"e\u0301", false); judge(U"\u00C5x" + w, false);
            p += 5;
        }
        ++p;
    }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    if (i >= 0x1100)
    {
        // Aliases of the composed characters
        auto base = uint32_t(i - 0x1100) << 20;
        uint64_t n = 0;
        for (size_t k = i % 4; k < uni::composed.size(); k += fw::tier_thorough() ? 1 : 4, ++n)
        {
            auto c = base + (uni::composed[k] & 0xFFFFF);
            if (c > uni::MAX) EV("beyond");
            one(c);
        }
        fw::exhaustive_points(n);
        return;
    }
    for (uint32_t k = 0; k < 256; ++k)
    {
        auto c = uint32_t(i * 256 + k);
        one(c);
        judge({char32_t(c)}, false);
        if (uni::decomp.count(c)) { judge({'x', char32_t(c), 'y'}); judge({char32_t(c), char32_t(c)}); judge({0x1EA4, char32_t(c), 0x301}); }
        else judge({0x1EA4, char32_t(c), 0xE5}, false);
    }
    fw::exhaustive_points(3 * 256);
}
