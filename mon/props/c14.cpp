#include "../common.hpp"
const char* const PROP_ID = "C14";
void prop_init()
{
    uni::load();
    for (auto n : {"trimmed-start", "trimmed-end", "all-trimmed", "nothing-trimmed", "inner-kept", "multi-byte-trimmed", "default-list", "empty-list", "every-pair"}) fw::require(n);
}
static void judge(const u32string& t, const u32string* list, const model::Pred& p, const string& what)
{
    auto s = model::enc(t);
    auto v = model::parse(s);
    In is(s);
    size_t a = 0, b = v.size();
    while (a < v.size() && p(v[a].c)) ++a;
    while (b > a && p(v[b - 1].c)) --b;
    size_t b0 = v.size();
    while (b0 > 0 && p(v[b0 - 1].c)) --b0;
    auto off = [&](size_t i) { return i < v.size() ? v[i].off : s.size(); };
    Range both{off(a), b > a ? off(b) - off(a) : 0}, start{off(a), s.size() - off(a)}, end{0, off(b0)};
    auto ctx = "(" + esc(s) + ", " + what + ")";
    if (list)
    {
        In32 il(*list);
        u32string_view l = il;
        expect_view("trim", CALL("trim", ys::trim(is, l)), is, both, ctx);
        expect_view("trim_start", CALL("trim_start", ys::trim_start(is, l)), is, start, ctx);
        expect_view("trim_end", CALL("trim_end", ys::trim_end(is, l)), is, end, ctx);
        auto x = CALL("trim_start", ys::trim_start(CALL("trim_end", ys::trim_end(is, l)).v, l));
        auto y = CALL("trim_end", ys::trim_end(CALL("trim_start", ys::trim_start(is, l)).v, l));
        expect_view("trim_start(trim_end)", x, is, both, ctx);
        expect_view("trim_end(trim_start)", y, is, both, ctx);
        if (list->empty()) EV("empty-list");
    }
    else
    {
        expect_view("trim", CALL("trim", ys::trim(is)), is, both, ctx);
        expect_view("trim_start", CALL("trim_start", ys::trim_start(is)), is, start, ctx);
        expect_view("trim_end", CALL("trim_end", ys::trim_end(is)), is, end, ctx);
        EV("default-list");
    }
    auto pred = [&](char32_t c) { return p(c); };
    expect_view("trim_where", CALL("trim_where", shim::trim_where(is, pred)), is, both, ctx);
    expect_view("trim_start_where", CALL("trim_start_where", shim::trim_start_where(is, pred)), is, start, ctx);
    expect_view("trim_end_where", CALL("trim_end_where", shim::trim_end_where(is, pred)), is, end, ctx);
    if (a && a < v.size()) { EV("trimmed-start"); if (v[a - 1].len > 1) EV("multi-byte-trimmed"); }
    if (b0 < v.size() && b0) EV("trimmed-end");
    if (a == v.size() && a) EV("all-trimmed");
    if (both.len == s.size()) EV("nothing-trimmed");
    for (size_t i = a; i < b; ++i) if (p(v[i].c)) { EV("inner-kept"); break; }
    fw::note(fw::Hash().add(s).add(what).h, !s.empty());
}
void prop_case(Src& src)
{
    auto t = gen::text(src, gen::SPACES);
    auto list = gen::list(src, t, gen::SPACES);
    // Put characters from the list at the ends, often.
    if (!list.empty() && src.chance(1, 2))
        for (auto k = src.below(6); k; --k)
        {
            auto c = list[src.below(uint32_t(list.size()))];
            if (src.chance(1, 2)) t.insert(t.begin(), c); else t += c;
        }
    judge(t, &list, [&](uint32_t c) { return list.find(char32_t(c)) != list.npos; }, "list " + esc32(list));
    auto d = [](uint32_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; };
    judge(t, nullptr, d, "default list");
    switch (src.below(4))
    {
    case 0: { u32string w = U" \t\n\r\f\v"; judge(t, &w, [&](uint32_t c) { return w.find(char32_t(c)) != w.npos; }, "ASCII whitespace"); break; }
    case 1: judge(t, nullptr, d, "default list"); break;
    default:
    {
        // An arbitrary predicate: some bits of the code point
        auto m = src.u8(), k = src.u8();
        auto p = [=](uint32_t c) { return ((c ^ (c >> 8)) & m) == (k & m & 3); };
        auto s = model::enc(t);
        auto v = model::parse(s);
        In is(s);
        size_t a = 0, b = v.size();
        while (a < v.size() && p(v[a].c)) ++a;
        while (b > a && p(v[b - 1].c)) --b;
        Range both{a < v.size() ? v[a].off : s.size(), b > a ? v[b - 1].end() - v[a].off : 0};
        expect_view("trim_where", CALL("trim_where", shim::trim_where(is, [&](char32_t c) { return p(c); })), is, both, "(" + esc(s) + ", predicate)");
    }
    }
    if (src.chance(1, 6)) fw::sample(esc32(t) + " list " + esc32(list));
}
// Every code point at both ends, against the default list and a list of itself.
// Also lists of all lengths, and up to 300 characters to trim.
static uint64_t others() { return 0x1100 + gen::LIST_SWEEPS + 300; }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
static uint64_t counts(size_t d)
{
    uint64_t n = 0;
    auto def = [](uint32_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; };
    for (auto& unit : {u32string(U" "), u32string(U"\r\n"), u32string(U"\u3000"), u32string(U"\U0001F600 "), u32string(U"\t\u00A0\n"), u32string(U"\u0301")})
        for (auto& body : {u32string(U"x"), u32string(), u32string(U"x y"), u32string(U"\u00E5 \u4E00"), u32string(U"\u0301x\u0301")})
        {
            u32string fill;
            while (fill.size() < d) fill += unit;
            fill.resize(d);
            auto in = [&](uint32_t c) { return unit.find(char32_t(c)) != unit.npos; };
            for (auto& t : {fill + body, body + fill, fill + body + fill.substr(0, d % 37), fill.substr(0, d % 37) + body + fill, fill + U"x" + fill + U"y" + fill})
            {
                judge(t, &unit, in, "list " + esc32(unit));
                judge(t, nullptr, def, "default list");
                n += 2;
            }
        }
    return n;
}
// Any number of characters to trim, and texts of all lengths
static uint64_t lengths(uint32_t k)
{
    uint64_t p = 0;
    p += gen::pairs(k, [&](char32_t x, char32_t y)
    {
        static const auto white = [](uint32_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; };
        u32string t = {x, y, 'a', x, y}, l = {y, x}, m = {y};
        judge(t, nullptr, white, "default list");
        judge(t, &l, [&](uint32_t c) { return c == x || c == y; }, "list " + esc32(l));
        judge(t, &m, [&](uint32_t c) { return c == y; }, "list " + esc32(m));
    });
    auto def = [](uint32_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; };
    static const u32string units[] = {U" ", U"\r\n", U"\u3000", U"\U0001F600 ", U"\t\u00A0\n", U"\u0301"};
    for (auto n : gen::long_sizes(k))
        for (int j = 0; j < 2; ++j)
        {
            auto& unit = units[(n + size_t(j) * 2) % std::size(units)];
            u32string fill, body = gen::long_text(n, n % 3);
            while (fill.size() < n) fill += unit;
            fill.resize(n);
            auto in = [&](uint32_t c) { return unit.find(char32_t(c)) != unit.npos; };
            for (auto& t : {fill, fill + U"x", U"x" + fill, fill + U"x y" + fill, unit + body + unit, body, body + fill, U"x" + fill + U"y"})
            {
                judge(t, &unit, in, "list " + esc32(unit));
                if (j == 0) judge(t, nullptr, def, "default list");
                p += 2;
            }
        }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    uint64_t n = 0;
    if (i >= 0x1100 + gen::LIST_SWEEPS) { fw::exhaustive_points(counts(size_t(i - 0x1100 - gen::LIST_SWEEPS + 1))); return; }
    if (i >= 0x1100)
    {
        gen::sweep_lists(uint32_t(i - 0x1100), [&](const u32string& l, uint32_t base, uint32_t step)
        {
            auto in = [&](uint32_t c) { return l.find(char32_t(c)) != l.npos; };
            auto p = gen::sweep_probes(l, base, step);
            for (auto c : p) { judge({c, 0xFFFF, c}, &l, in, "list " + esc32(l)); ++n; }
            judge(l + U"\uFFFF" + l, &l, in, "list " + esc32(l));
            judge(p, &l, in, "list " + esc32(l));
            judge(l, &l, in, "list " + esc32(l));
        });
        fw::exhaustive_points(n);
        return;
    }
    for (uint32_t k = 0; k < 256; ++k)
    {
        auto c = char32_t(i * 256 + k);
        bool d = c == ' ' || c == '\t' || c == '\n' || c == '\r';
        auto s = model::enc(u32string{c, 'x', c});
        auto len = model::enc(c).size();
        In is(s);
        expect_view("trim", CALL("trim", ys::trim(is)), is, d ? Range{len, 1} : Range{0, s.size()}, "(" + esc(s) + ")");
        expect_view("trim_start", CALL("trim_start", ys::trim_start(is)), is, d ? Range{len, len + 1} : Range{0, s.size()}, "(" + esc(s) + ")");
        expect_view("trim_end", CALL("trim_end", ys::trim_end(is)), is, d ? Range{0, len + 1} : Range{0, s.size()}, "(" + esc(s) + ")");
        In32 il(u32string{'q', c});
        expect_view("trim", CALL("trim", ys::trim(is, il)), is, c == 'x' ? Range{0, 0} : Range{len, 1}, "(" + esc(s) + ", itself)");
        n += 4;
    }
    fw::exhaustive_points(n);
}
