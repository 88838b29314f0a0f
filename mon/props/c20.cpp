#include "../common.hpp"
const char* const PROP_ID = "C20";
void prop_init()
{
    uni::load();
    for (auto n : {"hit", "miss", "hit-not-exact", "hit-other-length", "exact-hit", "offset-excludes-match", "offset-end-excludes-match", "empty-pattern", "self-overlap", "prefix-true", "suffix-true", "prefix-false",
                   "suffix-false", "of-hit", "of-miss", "of-hit-by-mapping", "longer-than-text", "every-pair"}) fw::require(n);
}
static void search(const string& s, const std::vector<Cp>& v, const In& is, const u32string& pat, size_t off)
{
    auto c = model::enc(pat);
    auto pv = model::parse(c);
    In ic(c);
    auto ctx = "(" + esc(s) + ", " + esc(c) + ", at " + std::to_string(off) + ")";
    auto f = model::ci_find_first(v, pv, off), l = model::ci_find_last(v, pv, off);
    expect_range("ci::find_first", CALL("ci::find_first", ci::find_first(is, ic, off)), f, ctx);
    expect_range("ci::find_last", CALL("ci::find_last", ci::find_last(is, ic, off)), l, ctx);
    auto f0 = model::ci_find_first(v, pv, 0), l0 = model::ci_find_last(v, pv, NONE);
    if (off == 0)
    {
        expect_range("ci::find_first", CALL("ci::find_first", ci::find_first(is, ic)), f0, ctx + " default offset");
        expect_range("ci::find_last", CALL("ci::find_last", ci::find_last(is, ic)), l0, ctx + " default offset");
        expect_range("ci::find_last", CALL("ci::find_last", ci::find_last(is, ic, s.size() + 3)), l0, ctx + " offset beyond the end");
        auto n = pv.size();
        bool starts = n <= v.size() && model::ci_match(v, 0, pv), ends = n <= v.size() && model::ci_match(v, v.size() - n, pv);
        expect_eq("ci::starts_with", CALL("ci::starts_with", ci::starts_with(is, ic)), starts, ctx);
        expect_eq("ci::ends_with", CALL("ci::ends_with", ci::ends_with(is, ic)), ends, ctx);
        if (n) { if (starts) EV("prefix-true"); else EV("prefix-false"); if (ends) EV("suffix-true"); else EV("suffix-false"); }
        if (n > v.size()) EV("longer-than-text");
    }
    for (auto& r : {f, l})
        if (r.len)
        {
            EV("hit");
            if (r.len != c.size()) EV("hit-other-length");
            if (s.compare(r.off, r.len, c) != 0) EV("hit-not-exact"); else EV("exact-hit");
        }
        else if (!c.empty()) EV("miss");
    if (f.off != f0.off) EV("offset-excludes-match");
    if (l.off != l0.off) EV("offset-end-excludes-match");
    if (f0.len && l0.len && f0.off < l0.off && l0.off < f0.end()) EV("self-overlap");
    if (c.empty()) EV("empty-pattern");
    fw::note(fw::Hash().add(s).add(c).add(off).h, !s.empty() && !c.empty());
}
static void of(const string& s, const std::vector<Cp>& v, const In& is, const u32string& list, size_t off)
{
    In32 il(list);
    auto p = [&](uint32_t c) { for (auto x : list) if (uni::upper(x) == uni::upper(c)) return true; return false; };
    auto ctx = "(" + esc(s) + ", " + esc32(list) + ", at " + std::to_string(off) + ")";
    auto f = model::find_first_cp(v, p, off), l = model::find_last_cp(v, p, off);
    expect_found("ci::find_first_of(list)", CALL("ci::find_first_of(list)", ci::find_first_of(is, u32string_view(il), off)), f, ctx);
    expect_found("ci::find_last_of(list)", CALL("ci::find_last_of(list)", ci::find_last_of(is, u32string_view(il), off)), l, ctx);
    // The same as a set of single code points, added one by one (so that no
    // two of them form a range), and negated.
    ys::CodepointSet set;
    for (auto c : list) set.ranges.emplace_back(c, c);
    expect_found("ci::find_first_of(set)", CALL("ci::find_first_of(set)", ci::find_first_of(is, set, off)), f, ctx + " as a set");
    expect_found("ci::find_last_of(set)", CALL("ci::find_last_of(set)", ci::find_last_of(is, set, off)), l, ctx + " as a set");
    set.negated = true;
    auto q = [&](uint32_t c) { return !p(c); };
    auto nf = model::find_first_cp(v, q, off), nl = model::find_last_cp(v, q, off);
    expect_found("ci::find_first_of(set)", CALL("ci::find_first_of(set)", ci::find_first_of(is, set, off)), nf, ctx + " as a negated set");
    expect_found("ci::find_last_of(set)", CALL("ci::find_last_of(set)", ci::find_last_of(is, set, off)), nl, ctx + " as a negated set");
    if (off == 0)
    {
        auto e = model::find_last_cp(v, p, NONE);
        expect_found("ci::find_first_of(list)", CALL("ci::find_first_of(list)", ci::find_first_of(is, u32string_view(il))), f, ctx + " default offset");
        expect_found("ci::find_last_of(list)", CALL("ci::find_last_of(list)", ci::find_last_of(is, u32string_view(il))), e, ctx + " default offset");
        expect_found("ci::find_first_of(set)", CALL("ci::find_first_of(set)", ci::find_first_of(is, set)), nf, ctx + " default offset");
        expect_found("ci::find_last_of(set)", CALL("ci::find_last_of(set)", ci::find_last_of(is, set)), model::find_last_cp(v, q, NONE), ctx + " default offset");
    }
    if (f.ok || l.ok) EV("of-hit"); else EV("of-miss");
    if (f.ok && list.find(char32_t(f.c)) == list.npos) EV("of-hit-by-mapping");
}
void prop_case(Src& src)
{
    auto t = gen::text(src, gen::CASE);
    auto s = model::enc(t);
    auto v = model::parse(s);
    In is(s);
    auto p = gen::pattern(src, t, gen::CASE, true);
    search(s, v, is, p, 0);
    for (int i = 0; i < 3; ++i) search(s, v, is, p, gen::boundary(src, v, s.size()));
    p = gen::pattern(src, t, gen::CASE, true);
    search(s, v, is, p, gen::boundary(src, v, s.size()));
    auto list = gen::list(src, t, gen::CASE);
    for (auto& c : list) if (src.chance(1, 3)) c = src.chance(1, 2) ? uni::upper(c) : uni::lower(c);
    of(s, v, is, list, 0);
    of(s, v, is, list, gen::boundary(src, v, s.size()));
    if (src.chance(1, 6)) fw::sample(esc32(p) + " in " + esc(s, 60));
}
// All strings of up to 6 letters over letters of various lengths, against all short patterns.
static const char32_t AB[] = {'k', 'K', 0x212A, 0x131, 'x'};
static uint64_t strings() { return fw::tier_thorough() ? 15625 : 3125; }
// A match at every distance up to 300 from the start, the end and the offset.
static uint64_t distance(size_t d)
{
    uint64_t n = 0;
    struct K { u32string pat, text, fill; };
    static const K kinds[] = {{U"x", U"X", U"."}, {U"k", U"\u212A", U"ab"}, {U"\u03A3a", U"\u03C2A", U"\u03C3"}, {U"Hello", U"hELLO", U"hell"}, {U"abcdefgh", U"ABCDEFGH", U"ABCDEFG"}, {U"\U00010400\u00E5", U"\U00010428\u00C5", U"\U00010428"}, {U"aab", U"aAB", U"a"},
                              {U"abcdefghijklmnopq", U"Abcdefghijklmnopq", U"abcdefghijklmnop"}, {U"1234", U"1234", U"123"}, {U"\u0131\u4E00", U"I\u4E00", U"\u4E00i"}};
    for (auto& k : kinds)
    {
        u32string fill;
        while (fill.size() < d) fill += k.fill;
        fill.resize(d);
        auto run = [&](const u32string& t, size_t skip, bool back)
        {
            auto s = model::enc(t);
            In is(s);
            search(s, model::parse(s), is, k.pat, back ? s.size() - skip : skip);
            ++n;
        };
        run(fill + k.text, 0, false);
        run(k.text + fill, 0, true);
        run(U"---" + fill + k.text + fill.substr(0, d % 40), 3, false);
        run(fill.substr(0, d % 40) + k.text + fill + U"---", 3, true);
        run(fill + k.text + fill + k.text, 0, true);
    }
    return n;
}
// Runs of code points whose mapping has another encoded length
static const size_t LONG_RUNS[] = {127, 128, 129, 150, 200, 255, 256, 257, 300, 400, 512, 600, 1024, 1100};
static uint64_t runs(size_t n)
{
    if (n > 80) n = LONG_RUNS[n - 81];
    uint64_t p = 0;
    for (uint32_t c = 0; c < 0x30000; ++c)
        for (auto d : {uni::upper(c), uni::lower(c), uni::lower(uni::upper(c))})
            if (d != c && uni::upper(c) == uni::upper(d) && model::enc(c).size() != model::enc(d).size())
            {
                if ((c + n) % (n > 120 ? 24 : 4) && n > 24 && c > 0x180 && !fw::tier_thorough()) continue;
                u32string a(n, char32_t(c)), b(n, char32_t(d));
                auto run = [&](const u32string& t, const u32string& q) { auto s = model::enc(t); In is(s); search(s, model::parse(s), is, q, 0); ++p; };
                run(a, b); run(b, a);
                if (n > 120 && (c + n) % 3) continue;
                run(U"z1" + a + U"z", b); run(a + U"z", b); run(U"z" + b, a); run(a, b + char32_t(d));
            }
    return p;
}
// Texts and patterns of all lengths, unlike only at one place
static uint64_t long_patterns(uint32_t k)
{
    uint64_t p = 0;
    p += gen::pairs(k, [&](char32_t x, char32_t y)
    {
        auto s = model::enc(u32string{x, y, 'a', x, y});
        auto v = model::parse(s);
        In is(s);
        search(s, v, is, {char32_t(uni::lower(x)), char32_t(uni::upper(y))}, 0);
        search(s, v, is, {char32_t(uni::upper(y)), 'A'}, v[1].off);
        of(s, v, is, {char32_t(uni::upper(y))}, 0);
    });
    for (auto n : gen::long_sizes(k))
        for (unsigned kind : {0u, 2u})
        {
            if (n == 0 || (kind == 2 && n % 2) || (n > 1100 && (n + kind) % 5 && n < 4000)) continue;
            auto c = gen::long_text(n, kind);
            auto other = c;
            for (auto& x : other) x = char32_t(uni::upper(x) != x ? uni::upper(x) : uni::lower(x));
            u32string near;
            auto run = [&](const u32string& t, size_t skip = 0)
            {
                auto s = model::enc(t);
                In is(s);
                search(s, model::parse(s), is, c, skip ? model::enc(t.substr(0, skip)).size() : 0);
                ++p;
            };
            for (size_t at : {size_t(0), c.size() / 2, c.size() - 1})
            {
                auto x = other;
                x[at] = x[at] == '#' ? '$' : '#';
                near += x;
                run(x);
            }
            run(other);
            run(other.substr(1));
            run(other.substr(0, n - 1) + U"\u0301");
            run(near + other + near.substr(0, 5));
            run(near + other + near, near.size());
            run(near + other + near, near.size() + 1);
            run(other + other.substr(1), 1);
        }
    return p;
}
uint64_t prop_exhaustive_count() { return strings() + gen::LIST_SWEEPS + 300 + 80 + std::size(LONG_RUNS) + gen::LONG_SWEEPS; }
void prop_exhaustive(uint64_t i)
{
    if (auto b = strings() + gen::LIST_SWEEPS + 380 + std::size(LONG_RUNS); i >= b) { fw::exhaustive_points(long_patterns(uint32_t(i - b))); return; }
    if (i >= strings() + gen::LIST_SWEEPS + 300) { fw::exhaustive_points(runs(size_t(i - strings() - gen::LIST_SWEEPS - 299))); return; }
    if (i >= strings() + gen::LIST_SWEEPS) { fw::exhaustive_points(distance(size_t(i - strings() - gen::LIST_SWEEPS))); return; }
    if (i >= strings())
    {
        // Lists of all lengths
        uint64_t n = 0;
        gen::sweep_lists(uint32_t(i - strings()), [&](const u32string& l, uint32_t base, uint32_t step)
        {
            for (auto c : gen::sweep_probes(l, base, step))
            {
                u32string t = {U'~', char32_t(++n % 2 ? uni::upper(c) : uni::lower(c)), 0xFFFF};
                auto s = model::enc(t);
                In is(s);
                of(s, model::parse(s), is, l, n % 5 ? 0 : 1);
            }
        });
        fw::exhaustive_points(n);
        return;
    }
    u32string t;
    auto k = i;
    for (int j = 0; j < (fw::tier_thorough() ? 6 : 5); ++j, k /= 5) t += AB[k % 5];
    auto s = model::enc(t);
    auto v = model::parse(s);
    In is(s);
    uint64_t n = 0;
    auto all = [&](const u32string& p) { for (auto& c : v) { search(s, v, is, p, c.off); ++n; } search(s, v, is, p, s.size()); ++n; };
    for (auto a : AB) { all({a}); for (auto b : AB) all({a, b}); }
    all({'k', 'x', 'k'}); all({'K', 'K', 'k'}); all({'x', 0x212A, 'x'});
    fw::exhaustive_points(n);
}
