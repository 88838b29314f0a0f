#include "../common.hpp"
const char* const PROP_ID = "C12";
void prop_init()
{
    uni::load();
    for (auto n : {"hit", "miss", "offset-inside", "crlf-forwards", "crlf-backwards", "lone-cr", "lone-lf", "offset-between-cr-and-lf", "multi-byte-hit", "negated-set", "empty-list", "long-list", "every-pair"}) fw::require(n);
}
static void newline(string_view s, const In& is, const std::vector<Cp>& v, size_t off)
{
    auto ctx = at(s, off);
    auto e1 = model::find_first_newline(s, v, off);
    expect_range("find_first_newline", CALL("find_first_newline", ys::find_first_newline(is, off)), e1, ctx);
    auto e2 = model::find_last_newline(s, v, off);
    expect_range("find_last_newline", CALL("find_last_newline", ys::find_last_newline(is, off)), e2, ctx);
    if (e1.len == 2 && s[e1.off] == '\r') EV("crlf-forwards");
    if (e2.len == 2 && s[e2.off] == '\r') EV("crlf-backwards");
    if (e1.len == 1 && s[e1.off] == '\r') EV("lone-cr");
    if (e1.len == 1 && s[e1.off] == '\n') EV("lone-lf");
    if (off && off < s.size() && s[off] == '\n' && s[off - 1] == '\r') EV("offset-between-cr-and-lf");
    if (off == 0)
    {
        expect_range("find_first_newline", CALL("find_first_newline", ys::find_first_newline(is)), e1, ctx + " default offset");
        expect_range("find_last_newline", CALL("find_last_newline", ys::find_last_newline(is)), model::find_last_newline(s, v, NONE), ctx + " default offset");
    }
}
static void judge(const u32string& t, const u32string& list, const std::vector<std::pair<uint32_t, uint32_t>>& ranges, bool negated, size_t off, const std::vector<Cp>& v, const string& s)
{
    In is(s);
    In32 il(list);
    auto in_list = [&](uint32_t c) { return list.find(char32_t(c)) != list.npos; };
    auto in_set = [&](uint32_t c) { for (auto& [a, b] : ranges) if (a <= c && c <= b) return !negated; return negated; };
    auto ctx = "(" + esc(s) + ", list " + esc32(list) + ", at " + std::to_string(off) + ")";
    auto f1 = model::find_first_cp(v, in_list, off), l1 = model::find_last_cp(v, in_list, off);
    expect_found("find_first_of(list)", CALL("find_first_of(list)", ys::find_first_of(is, u32string_view(il), off)), f1, ctx);
    expect_found("find_last_of(list)", CALL("find_last_of(list)", ys::find_last_of(is, u32string_view(il), off)), l1, ctx);
    ys::CodepointSet set;
    for (auto& [a, b] : ranges) if (a == b) set.add_codepoint(char32_t(a)); else set.add_range(char32_t(a), char32_t(b));
    set.negated = negated;
    auto f2 = model::find_first_cp(v, in_set, off), l2 = model::find_last_cp(v, in_set, off);
    ctx = "(" + esc(s) + ", set, at " + std::to_string(off) + ")";
    expect_found("find_first_of(set)", CALL("find_first_of(set)", ys::find_first_of(is, set, off)), f2, ctx);
    expect_found("find_last_of(set)", CALL("find_last_of(set)", ys::find_last_of(is, set, off)), l2, ctx);
    int calls = 0;
    auto pred = [&](char32_t c) { ++calls; return in_set(c); };
    expect_found("find_first_where", CALL("find_first_where", shim::find_first_where(is, pred, off)), f2, ctx);
    expect_found("find_last_where", CALL("find_last_where", shim::find_last_where(is, pred, off)), l2, ctx);
    if (off == 0)
    {
        auto l3 = model::find_last_cp(v, in_list, NONE);
        expect_found("find_first_of(list)", CALL("find_first_of(list)", ys::find_first_of(is, u32string_view(il))), f1, ctx + " default offset");
        expect_found("find_last_of(list)", CALL("find_last_of(list)", ys::find_last_of(is, u32string_view(il))), l3, ctx + " default offset");
        expect_found("find_last_of(list)", CALL("find_last_of(list)", ys::find_last_of(is, u32string_view(il), s.size() + 5)), l3, ctx + " offset beyond the end");
        expect_found("find_first_of(set)", CALL("find_first_of(set)", ys::find_first_of(is, set)), f2, ctx + " default offset");
        expect_found("find_last_of(set)", CALL("find_last_of(set)", ys::find_last_of(is, set)), model::find_last_cp(v, in_set, NONE), ctx + " default offset");
        expect_found("find_first_where", CALL("find_first_where", shim::find_first_where0(is, pred)), f2, ctx + " default offset");
        expect_found("find_last_where", CALL("find_last_where", shim::find_last_where0(is, pred)), model::find_last_cp(v, in_set, NONE), ctx + " default offset");
    }
    newline(s, is, v, off);
    if (f1.ok || l1.ok) EV("hit"); else EV("miss");
    if ((f1.ok && f1.len > 1) || (l2.ok && l2.len > 1)) EV("multi-byte-hit");
    if (off && off < s.size()) EV("offset-inside");
    if (negated) EV("negated-set");
    if (list.empty()) EV("empty-list");
    if (list.size() > 8) EV("long-list");
    (void)t;
    fw::note(fw::Hash().add(s).add(model::enc(list)).add(off).add(negated).h, !s.empty());
}
void prop_case(Src& src)
{
    auto t = gen::text(src, src.chance(1, 2) ? gen::NEWLINES : gen::MIXED);
    auto s = model::enc(t);
    auto v = model::parse(s);
    auto list = gen::list(src, t);
    if (src.chance(1, 10)) list += gen::text(src).substr(0, 64);
    std::vector<std::pair<uint32_t, uint32_t>> ranges;
    for (auto c : gen::list(src, t)) ranges.push_back({c, src.chance(1, 2) ? c : std::min(uni::MAX, uint32_t(c) + src.below(src.chance(1, 3) ? 0x2000 : 16))});
    bool negated = src.chance(1, 3);
    judge(t, list, ranges, negated, 0, v, s);
    for (int i = 0; i < 3; ++i)
        judge(t, list, ranges, negated, gen::boundary(src, v, s.size()), v, s);
    if (src.chance(1, 6)) fw::sample(esc(s, 60) + ", list " + esc32(list));
}
// All strings of up to 6 letters over newlines and other letters, at all offsets.
static const char32_t AB[] = {'\n', '\r', 'a', 0x85, 0xE5};
static uint64_t strings() { return fw::tier_thorough() ? 625 * 5 : 625; }
// The only hit at every distance up to 600 from the start, the end and the offset.
static uint64_t distance(size_t d)
{
    uint64_t n = 0;
    static const char32_t hits[] = {'\n', '\r', 0x85, 0x2028, 0x2029, '\v', '\f', 'q', 0xE5, 0x4E00, 0x1F600};
    static const u32string fills[] = {U".", U"\u00E6", U"\u0420", U"\u2027", U"\u202A.", U"\U0001F601", U"\u0084a", U"\u4E01\u00C5", U"abcdefghijklmnop\t"};
    for (auto h : hits)
        for (auto& unit : fills)
        {
            if ((d + h + uint32_t(unit[0])) % 3 && d > 70) continue;
            u32string fill;
            while (fill.size() < d) fill += unit;
            fill.resize(d);
            u32string hit = d % 4 == 1 && h == '\r' ? U"\r\n" : u32string{h};
            std::vector<std::pair<uint32_t, uint32_t>> r = {{h, h}};
            auto run = [&](const u32string& t, size_t skip, bool back)
            {
                auto s = model::enc(t);
                auto v = model::parse(s);
                judge(t, hit, r, false, back ? s.size() - skip : skip, v, s);
                ++n;
            };
            run(fill + hit, 0, false);
            run(hit + fill, 0, true);
            run(U"--" + fill + hit + fill.substr(0, d % 40), 2, false);
            run(fill.substr(0, d % 40) + hit + fill + U"--", 2, true);
        }
    return n;
}
static uint64_t others() { return strings() + gen::LIST_SWEEPS + 600; }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
// Lists of all lengths.
static uint64_t lists(uint32_t k)
{
    uint64_t n = 0;
    gen::sweep_lists(k, [&](const u32string& l, uint32_t base, uint32_t step)
    {
        std::vector<std::pair<uint32_t, uint32_t>> ranges;
        for (size_t j = 0; j + 1 < l.size(); j += 2) ranges.emplace_back(std::min(l[j], l[j + 1]), std::max(l[j], l[j + 1]));
        for (auto c : gen::sweep_probes(l, base, step))
        {
            u32string t = {U'~', c, 0xFFFF};
            auto s = model::enc(t);
            judge(t, l, ranges, k & 1, n % 5 ? 0 : 1, model::parse(s), s);
            ++n;
        }
    });
    return n;
}
// The only hit at every distance up to 2559, and some larger ones
static uint64_t lengths(uint32_t k)
{
    static const char32_t hits[] = {'\n', '\r', 0x85, 0x2028, 0x2029, '\v', '\f', 'q', 0xE5, 0x4E00, 0x1F600};
    static const u32string fills[] = {U".", U"\u00E6", U"\u2027", U"\U0001F601", U"\u4E01\u00C5", U"abcdefghijklmnop\t"};
    uint64_t p = 0;
    p += gen::pairs(k, [&](char32_t x, char32_t y)
    {
        u32string t = {x, y, x};
        auto s = model::enc(t);
        auto v = model::parse(s);
        In is(s);
        for (auto& c : v) newline(s, is, v, c.off);
        newline(s, is, v, s.size());
        judge(t, {y}, {{y, y}}, false, 0, v, s);
        judge(t, {'q', x, 'z'}, {{x, x}}, true, v[1].off, v, s);
    });
    for (auto n : gen::long_sizes(k))
        for (int j = 0; j < 3; ++j)
        {
            auto h = j == 0 ? U'\n' : hits[(n + size_t(j)) % std::size(hits)];
            auto& unit = fills[(n / 3 + size_t(j)) % std::size(fills)];
            u32string fill;
            while (fill.size() < n) fill += unit;
            fill.resize(n);
            auto hit = n % 4 == 1 && h == '\r' ? u32string(U"\r\n") : u32string{h};
            std::vector<std::pair<uint32_t, uint32_t>> r = {{h, h}};
            auto run = [&](const u32string& t, size_t off)
            {
                auto s = model::enc(t);
                judge(t, hit, r, false, model::enc(t.substr(0, off)).size(), model::parse(s), s);
                ++p;
            };
            run(fill + hit, 0);
            run(hit + fill, 0);
            run(fill + hit + fill, n);
            run(fill + hit + fill, n + hit.size());
            run(fill, 0);
            run(u32string(n, h), n / 2);
        }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    if (i >= strings() + gen::LIST_SWEEPS) { fw::exhaustive_points(distance(size_t(i - strings() - gen::LIST_SWEEPS))); return; }
    if (i >= strings()) { fw::exhaustive_points(lists(uint32_t(i - strings()))); return; }
    u32string p;
    int n = fw::tier_thorough() ? 5 : 4;
    auto k = i;
    for (int j = 0; j < n; ++j, k /= 5) p += AB[k % 5];
    uint64_t pts = 0;
    auto run = [&](const u32string& t)
    {
        auto s = model::enc(t);
        auto v = model::parse(s);
        In is(s);
        for (auto& c : v) { newline(s, is, v, c.off); ++pts; }
        newline(s, is, v, s.size());
        ++pts;
    };
    run(p);
    for (auto a : AB) { run(p + a); for (auto b : AB) run(p + a + b); }
    if (i < 5) { run({AB[i]}); for (auto a : AB) { run({AB[i], a}); for (auto b : AB) run({AB[i], a, b}); } run({}); }
    // All code points around the newlines
    if (i < 100) for (uint32_t c = uint32_t(i) * 100; c < i * 100 + 100; ++c) run({'x', char32_t(c), 'y'});
    fw::exhaustive_points(pts);
}
