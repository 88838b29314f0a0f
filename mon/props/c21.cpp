#include "../common.hpp"
const char* const PROP_ID = "C21";
void prop_init()
{
    uni::load();
    for (auto n : {"replaced", "no-match", "limited-forwards", "limited-backwards", "overlapping", "match-other-length", "match-not-exact", "empty-from", "from-in-to", "extreme-limit", "match-at-end",
                   "split-by-string", "split-by-list", "split-not-exact", "split-limit", "split-ignore-empty", "split-empty-parts", "direction-matters", "every-pair"}) fw::require(n);
}
static std::vector<Range> matches(const std::vector<Cp>& v, const std::vector<Cp>& c, size_t size, ptrdiff_t limit)
{
    auto first = [&](size_t p) { return model::ci_find_first(v, c, p); };
    auto last = [&](size_t p) { return model::ci_find_last(v, c, p); };
    return limit >= 0 ? model::matches_fwd(size, first, size_t(limit)) : model::matches_bwd(size, last, size_t(0) - size_t(limit));
}
static void replace(const string& s, const std::vector<Cp>& v, const u32string& from, const string& to, ptrdiff_t limit, bool with_default = false)
{
    auto f = model::enc(from);
    auto c = model::parse(f);
    In is(s), i_f(f), it(to);
    auto m = matches(v, c, s.size(), limit);
    auto ctx = "(" + esc(s) + ", " + esc(f) + ", " + esc(to) + ", " + num(limit) + ")";
    expect_str("ci::replace", CALL("ci::replace", ci::replace(is, i_f, it, limit)), model::splice(s, m, to), ctx);
    if (with_default) expect_str("ci::replace", CALL("ci::replace", ci::replace(is, i_f, it)), model::splice(s, matches(v, c, s.size(), PTRDIFF_MAX), to), ctx + " default limit");
    if (m.empty()) EV("no-match");
    else
    {
        EV("replaced");
        if (limit > 0 && m.size() == size_t(limit)) EV("limited-forwards");
        if (limit < 0 && m.size() == size_t(0) - size_t(limit)) EV("limited-backwards");
        if (m.back().end() == s.size()) EV("match-at-end");
        if (m != matches(v, c, s.size(), limit >= 0 ? (limit == PTRDIFF_MAX ? PTRDIFF_MIN : -limit) : PTRDIFF_MAX)) EV("direction-matters");
        for (auto& x : m)
        {
            if (x.len != f.size()) EV("match-other-length");
            if (s.compare(x.off, x.len, f) != 0) EV("match-not-exact");
        }
        size_t second = NONE;
        for (auto& q : v) if (q.off > m[0].off) { second = q.off; break; }
        if (second != NONE) { auto o = model::ci_find_first(v, c, second); if (o.len && o.off < m[0].end()) EV("overlapping"); }
        if (to.find(f) != to.npos) EV("from-in-to");
        if (limit > (ptrdiff_t(1) << 40) || limit < -(ptrdiff_t(1) << 40)) EV("extreme-limit");
    }
    if (from.empty()) EV("empty-from");
    fw::note(fw::Hash().add(s).add(f).add(to).add(uint64_t(limit)).h, !s.empty() && !f.empty());
}
using Views = std::vector<string_view>;
static void check(const char* fn, const fw::Res<Views>& r, const In& in, const std::vector<Range>& e, const string& ctx)
{
    if (!r.ok()) { FAIL(string("throw:") + fn, string(fn) + ctx + " threw"); return; }
    bool good = r.v.size() == e.size();
    for (size_t i = 0; good && i < e.size(); ++i)
    {
        auto off = in.offset_of(fn, r.v[i]);
        good = r.v[i].size() == e[i].len && (e[i].len == 0 || off == e[i].off);
    }
    if (good) return;
    string g = "[", w = "[";
    for (auto& x : r.v) g += esc(x, 30) + " ";
    for (auto& x : e) w += str(x) + esc(in.sv().substr(x.off, x.len), 30) + " ";
    FAIL(string("parts:") + fn, string(fn) + ctx + " = " + g.substr(0, 600) + "], expected " + w.substr(0, 600) + "]");
}
template <class Call>
static void split(Src& src, const char* fn, const string& s, const In& is, const model::Finder& f, Call&& call, const string& ctx)
{
    auto all = model::split_all(s.size(), f);
    check(fn, call(ys::SplitParams{}), is, all.parts, ctx);
    check(fn, call(ys::IGNORE_EMPTY), is, model::split(s.size(), f, SIZE_MAX, true), ctx + " ignoring empty parts");
    for (int i = 0; i < 2; ++i)
    {
        size_t limit = src.chance(1, 6) ? SIZE_MAX - src.below(2) : src.chance(1, 8) ? size_t(gen::alias(src, ptrdiff_t(src.below(4)))) : src.below(uint32_t(std::min<size_t>(all.parts.size(), 20)) + 2);
        bool ignore = src.chance(1, 2);
        check(fn, call(ys::SplitParams{limit, ignore}), is, model::split(s.size(), f, limit, ignore), ctx + " limit " + std::to_string(limit) + (ignore ? " ignoring empty parts" : ""));
        if (limit < all.seps.size()) EV("split-limit");
        if (ignore) EV("split-ignore-empty");
    }
    for (auto& p : all.parts) if (!p.len) { EV("split-empty-parts"); break; }
}
void prop_case(Src& src)
{
    auto t = gen::text(src, gen::CASE);
    auto s = model::enc(t);
    auto v = model::parse(s);
    auto p = gen::pattern(src, t, gen::CASE, true);
    auto to = model::enc(src.chance(1, 3) ? gen::pattern(src, p, gen::CASE, true) : gen::text(src, gen::CASE));
    if (src.chance(1, 8)) to = model::enc(p) + to;
    if (to.size() > 300) to.resize(300);
    if (s.size() > 2000 && p.size() < 3) to.resize(std::min<size_t>(to.size(), 20));
    replace(s, v, p, to, PTRDIFF_MAX, true);
    for (int i = 0; i < 3; ++i) replace(s, v, p, to, gen::limit(src, 5));
    if (src.chance(1, 6)) fw::sample("replace " + esc32(p) + " by " + esc(to, 30) + " in " + esc(s, 60));

    In is(s);
    p = src.chance(1, 2) ? gen::pattern(src, t, gen::CASE, true) : p.substr(0, 1 + src.below(2));
    {
        auto sep = model::enc(p);
        auto c = model::parse(sep);
        In ip(sep);
        auto f = [&](size_t q) { return model::ci_find_first(v, c, q); };
        split(src, "ci::split(string)", s, is, f, [&](ys::SplitParams q) { return CALL("ci::split(string)", ci::split(is, ip.sv(), q)); }, "(" + esc(s) + ", " + esc(sep) + ")");
        EV("split-by-string");
        auto m = f(0);
        if (m.len && s.compare(m.off, m.len, sep) != 0) EV("split-not-exact");
    }
    {
        auto list = gen::list(src, t, gen::CASE);
        for (auto& c : list) if (src.chance(1, 3)) c = src.chance(1, 2) ? uni::upper(c) : uni::lower(c);
        In32 il(list);
        auto pr = [&](uint32_t c) { for (auto x : list) if (uni::upper(x) == uni::upper(c)) return true; return false; };
        auto f = [&](size_t q) { auto c = model::find_first_cp(v, pr, q); return Range{c.off, c.ok ? c.len : 0}; };
        split(src, "ci::split(list)", s, is, f, [&](ys::SplitParams q) { return CALL("ci::split(list)", ci::split(is, u32string_view(il), q)); }, "(" + esc(s) + ", list " + esc32(list) + ")");
        EV("split-by-list");
    }
}
// All strings of 5 (6) letters, short patterns, small limits.
static const char32_t AB[] = {'k', 0x212A, 'x', 'X'};
static uint64_t strings() { return fw::tier_thorough() ? 4096 : 1024; }
// Also lists of all lengths, and any number of matches up to 300.
static const size_t LONG_RUNS[] = {127, 128, 129, 150, 200, 255, 256, 257, 300, 400, 512, 600, 1024, 1100};
uint64_t prop_exhaustive_count() { return strings() + gen::LIST_SWEEPS + 300 + 60 + std::size(LONG_RUNS) + gen::LONG_SWEEPS; }
static uint64_t lists(uint32_t k)
{
    uint64_t n = 0;
    gen::sweep_lists(k, [&](const u32string& l, uint32_t base, uint32_t step)
    {
        In32 il(l);
        auto probes = gen::sweep_probes(l, base, step);
        for (size_t j = 0; j + 2 < probes.size(); j += 3)
        {
            u32string t = {U'~', probes[j], 0xFFFF, char32_t(uni::upper(probes[j + 1])), char32_t(uni::lower(probes[j + 2])), 0xFFFF};
            auto s = model::enc(t);
            auto v = model::parse(s);
            In is(s);
            auto f = [&](size_t p) { auto c = model::find_first_cp(v, [&](uint32_t x) { for (auto y : l) if (uni::upper(x) == uni::upper(y)) return true; return false; }, p); return Range{c.off, c.ok ? c.len : 0}; };
            check("ci::split(list)", CALL("ci::split(list)", ci::split(is, u32string_view(il))), is, model::split(s.size(), f, SIZE_MAX, false), "(" + esc(s) + ", list " + esc32(l) + ")");
            ++n;
        }
    });
    return n;
}
static uint64_t counts(size_t count)
{
    uint64_t n = 0;
    struct K { const char* part; const char* sep; const char* alike; const char* to; };
    static const K kinds[] = {{"ab", "x", "X", "yz"}, {"", "k", "\xE2\x84\xAA", ""}, {"\xC3\xA5", "\xC3\x9F", "\xC3\x9F", "ss"}, {"1", "-A", "-a", "-a-A"}, {"abcdefghijklmnopqrstuvw", "\xCE\xA3\xCF\x82", "\xCF\x83\xCF\x83", "S"}};
    for (auto& k : kinds)
    {
        string s, sep = k.sep;
        for (size_t j = 0; j < count; ++j) { if (j) s += j % 3 ? k.alike : k.sep; s += k.part; }
        auto v = model::parse(s);
        auto c = model::parse(sep);
        In is(s), ip(sep);
        auto f = [&](size_t p) { return model::ci_find_first(v, c, p); };
        auto ctx = "(" + std::to_string(count) + " parts " + esc(k.part) + " separated by " + esc(sep) + ")";
        check("ci::split(string)", CALL("ci::split(string)", ci::split(is, ip.sv())), is, model::split(s.size(), f, SIZE_MAX, false), ctx);
        for (size_t limit : {count - 1, count / 2}) check("ci::split(string)", CALL("ci::split(string)", ci::split(is, ip.sv(), {limit, true})), is, model::split(s.size(), f, limit, true), ctx + " limit " + std::to_string(limit));
        for (auto limit : {PTRDIFF_MAX, ptrdiff_t(count / 2 + 1), -ptrdiff_t(count / 2 + 1), ptrdiff_t(count), PTRDIFF_MIN}) replace(s, v, model::cps(sep), k.to, limit);
        n += 8;
    }
    return n;
}
// Runs of code points whose mapping has another encoded length
static uint64_t runs(size_t n)
{
    if (n > 60) n = LONG_RUNS[n - 61];
    uint64_t p = 0;
    for (uint32_t c = 0; c < 0x30000; ++c)
        for (auto d : {uni::upper(c), uni::lower(c)})
            if (d != c && uni::upper(c) == uni::upper(d) && model::enc(c).size() != model::enc(d).size())
            {
                if ((c + n) % (n > 120 ? 24 : 4) && n > 16 && c > 0x180 && !fw::tier_thorough()) continue;
                u32string a(n, char32_t(c)), b(n, char32_t(d));
                for (auto& t : {a, U"z1" + a + U"z" + b, a + b + U"q"})
                {
                    auto s = model::enc(t), sep = model::enc(b);
                    auto v = model::parse(s), q = model::parse(sep);
                    for (auto limit : {PTRDIFF_MAX, ptrdiff_t(-1)}) replace(s, v, b, "-", limit);
                    In is(s), ip(sep);
                    auto f = [&](size_t pos) { return model::ci_find_first(v, q, pos); };
                    check("ci::split(string)", CALL("ci::split(string)", ci::split(is, ip.sv())), is, model::split(s.size(), f, SIZE_MAX, false), "(" + esc(s) + ", separated by " + esc(sep) + ")");
                    p += 3;
                }
            }
    return p;
}
// Texts, patterns, separators and replacements of all lengths
static uint64_t lengths(uint32_t k)
{
    uint64_t p = 0;
    p += gen::pairs(k, [&](char32_t x, char32_t y)
    {
        auto s = model::enc(u32string{x, y, 'a', x, y, y});
        auto v = model::parse(s);
        replace(s, v, {char32_t(uni::lower(x)), char32_t(uni::upper(y))}, "--", PTRDIFF_MAX);
        replace(s, v, {char32_t(uni::upper(y))}, "\xC3\xA5", -2);
        replace(s, v, {char32_t(uni::lower(y))}, "", 2);
    });
    for (auto n : gen::long_sizes(k))
    {
        if (n > 1100 && n % 5 && n < 4000) continue;
        unsigned kind = n % 2 ? 2 : 0;
        auto c = gen::long_text(n, kind);
        auto other = c;
        for (auto& x : other) x = char32_t(uni::upper(x) != x ? uni::upper(x) : uni::lower(x));
        auto to = model::enc(gen::long_text(n, kind + 4));
        auto both = [&](const u32string& t, const u32string& f, const string& r)
        {
            auto s = model::enc(t);
            auto v = model::parse(s);
            for (auto l : {PTRDIFF_MAX, PTRDIFF_MIN, ptrdiff_t(1), ptrdiff_t(-1)}) { replace(s, v, f, r, l); ++p; }
            auto sep = model::enc(f);
            auto q = model::parse(sep);
            In is(s), ip(sep);
            auto find = [&](size_t pos) { return model::ci_find_first(v, q, pos); };
            check("ci::split(string)", CALL("ci::split(string)", ci::split(is, ip.sv())), is, model::split(s.size(), find, SIZE_MAX, false), "(" + esc(s) + ", separated by " + esc(sep) + ")");
            ++p;
        };
        both(U"1x2Xx3", U"X", to);
        both(U"k", U"\u212A", to);
        both(other + U"#" + c, U"#", "\xE2\x82\xAC");
        if (c.empty()) continue;
        u32string near;
        for (size_t at : {size_t(0), c.size() / 2, c.size() - 1})
        {
            auto x = other;
            x[at] = x[at] == '#' ? '$' : '#';
            near += x;
        }
        both(U"a" + other + near + c + U"b", c, "Q");
        both(other, c, to);
        both(near, c, "");
        both(c + other.substr(1), c, "12");
    }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (auto b = strings() + gen::LIST_SWEEPS + 360 + std::size(LONG_RUNS); i >= b) { fw::exhaustive_points(lengths(uint32_t(i - b))); return; }
    if (i >= strings() + gen::LIST_SWEEPS + 300) { fw::exhaustive_points(runs(size_t(i - strings() - gen::LIST_SWEEPS - 299))); return; }
    if (i >= strings())
    {
        i -= strings();
        fw::exhaustive_points(i < gen::LIST_SWEEPS ? lists(uint32_t(i)) : counts(size_t(i - gen::LIST_SWEEPS + 1)));
        return;
    }
    u32string t;
    auto k = i;
    for (int j = 0; j < (fw::tier_thorough() ? 6 : 5); ++j, k /= 4) t += AB[k % 4];
    auto s = model::enc(t);
    auto v = model::parse(s);
    uint64_t n = 0;
    for (u32string p : {U"K", U"k", U"x", U"KK", U"xX", U"kx", U"XK", U"KXK", U""})
        for (auto to : {"", "k", "xkx"})
            for (ptrdiff_t l : {ptrdiff_t(1), ptrdiff_t(2), ptrdiff_t(-1), ptrdiff_t(-2), PTRDIFF_MAX, PTRDIFF_MIN}) { replace(s, v, p, to, l); ++n; }
    fw::exhaustive_points(n);
}
