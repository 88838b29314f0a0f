#include "../common.hpp"
const char* const PROP_ID = "C13";
void prop_init()
{
    uni::load();
    for (auto n : {"separators", "no-separator", "empty-parts", "limited", "limit-0", "limit-reached-exactly", "ignore-empty", "leading-separator", "trailing-separator", "adjacent-separators",
                   "whole-string-is-separator", "crlf", "tokens", "join", "empty-separator", "empty-string", "every-pair"}) fw::require(n);
}
using Views = std::vector<string_view>;
static void check(const char* fn, const fw::Res<Views>& r, const In& in, const std::vector<Range>& e, const string& ctx)
{
    if (!r.ok()) { FAIL(string("throw:") + fn, string(fn) + ctx + " threw"); return; }
    bool good = r.v.size() == e.size();
    for (size_t i = 0; good && i < e.size(); ++i)
    {
        auto off = in.offset_of(fn, r.v[i]);
        good = r.v[i].size() == e[i].len && (e[i].len == 0 || off == e[i].off);
    }
    if (good) return;
    string g = "[", w = "[";
    for (auto& x : r.v) g += esc(x, 30) + " ";
    for (auto& x : e) w += str(x) + esc(in.sv().substr(x.off, x.len), 30) + " ";
    FAIL(string("parts:") + fn, string(fn) + ctx + " = " + g.substr(0, 600) + "], expected " + w.substr(0, 600) + "]");
}
static size_t pick_limit(Src& src, size_t n)
{
    switch (src.below(6))
    {
    case 0: return 0;
    case 1: return src.chance(1, 2) ? SIZE_MAX - src.below(3) : size_t(gen::alias(src, ptrdiff_t(src.below(4))));
    case 2: return n;
    case 3: return n ? n - 1 : 0;
    default: return src.below(uint32_t(std::min<size_t>(n, 20)) + 3);
    }
}
static void events(string_view s, const model::Split& m, size_t limit, bool ignore)
{
    if (m.seps.empty()) EV("no-separator"); else EV("separators");
    for (auto& p : m.parts) if (!p.len) { EV("empty-parts"); break; }
    if (limit == 0) EV("limit-0"); else if (limit < m.parts.size()) EV("limited");
    if (limit == m.seps.size() && limit) EV("limit-reached-exactly");
    if (ignore) EV("ignore-empty");
    if (!m.seps.empty() && m.seps[0].off == 0) EV("leading-separator");
    if (!m.seps.empty() && m.seps.back().end() == s.size()) EV("trailing-separator");
    for (size_t i = 1; i < m.seps.size(); ++i) if (m.seps[i].off == m.seps[i - 1].end()) { EV("adjacent-separators"); break; }
    if (m.seps.size() == 1 && m.seps[0].len == s.size()) EV("whole-string-is-separator");
    if (s.empty()) EV("empty-string");
}
template <class Call>
static void variants(Src& src, const char* fn, string_view s, const In& is, const model::Finder& f, Call&& call, const string& ctx)
{
    auto m = model::split_all(s.size(), f);
    check(fn, call(ys::SplitParams{}), is, m.parts, ctx);
    check(fn, call(ys::IGNORE_EMPTY), is, model::split(s.size(), f, SIZE_MAX, true), ctx + " ignoring empty parts");
    for (int i = 0; i < 3; ++i)
    {
        auto limit = pick_limit(src, m.parts.size());
        bool ignore = src.chance(1, 2);
        events(s, m, limit, ignore);
        check(fn, call(ys::SplitParams{limit, ignore}), is, model::split(s.size(), f, limit, ignore), ctx + " limit " + std::to_string(limit) + (ignore ? " ignoring empty parts" : ""));
    }
    fw::note(fw::Hash().add(fn).add(s).add(ctx).h, !s.empty());
}
static void tokens(const char* fn, const In& is, string_view s, const shim::Finder& finder, const model::Finder& f, const string& ctx)
{
    auto m = model::split_all(s.size(), f);
    int exhausted = 0;
    auto r = CALL("TokenIterator", shim::tokens(is, finder, m.parts.size() + 3, &exhausted));
    if (!r.ok() || r.v.size() != m.parts.size() || exhausted != 3)
    {
        FAIL(string("token-count:") + fn, string("TokenIterator with ") + fn + ctx + " gave " + std::to_string(r.v.size()) + " parts, expected " + std::to_string(m.parts.size()));
        return;
    }
    for (size_t i = 0; i < m.parts.size(); ++i)
    {
        auto& x = r.v[i];
        bool has = i < m.seps.size();
        Range tok = has ? m.seps[i] : Range{0, 0}, rem = has ? Range{m.seps[i].end(), s.size() - m.seps[i].end()} : Range{0, 0};
        auto same = [&](string_view v, const Range& e) { auto off = is.offset_of("TokenIterator", v); return v.size() == e.len && (!e.len || off == e.off); };
        if (!same(x.part, m.parts[i])) FAIL("token:part", "TokenIterator::part() with " + string(fn) + ctx + " = " + esc(x.part) + ", expected " + str(m.parts[i]));
        if (!same(x.token, tok)) FAIL("token:token", "TokenIterator::token() with " + string(fn) + ctx + " = " + esc(x.token) + ", expected " + str(tok));
        if (!same(x.remainder, rem)) FAIL("token:remainder", "TokenIterator::remainder() with " + string(fn) + ctx + " = " + esc(x.remainder) + ", expected " + str(rem));
        if (x.has_token != has) FAIL("token:bool", "TokenIterator's bool conversion with " + string(fn) + ctx + " is wrong");
    }
    EV("tokens");
}
static void by_string(Src& src, const string& s, const string& sep)
{
    In is(s), ip(sep);
    auto ctx = "(" + esc(s) + ", " + esc(sep) + ")";
    auto f = [&](size_t p) { auto x = model::find_first(s, sep, p); return Range{x, x == NONE ? 0 : sep.size()}; };
    variants(src, "split(string)", s, is, f, [&](ys::SplitParams p) { return CALL("split(string)", ys::split(is, ip.sv(), p)); }, ctx);
    tokens("find_first", is, s, [&](string_view v) { auto x = model::find_first(v, sep, 0); auto miss = src.below(3); return x == NONE ? (miss == 0 ? Subrange() : miss == 1 ? Subrange(v.size(), 0) : Subrange(0, 0)) : Subrange(x, sep.size()); }, f, ctx);
    if (sep.empty()) EV("empty-separator");
    // Joining the parts gives the string back.
    auto limit = pick_limit(src, 4);
    auto parts = CALL("split(string)", ys::split(is, ip.sv(), {src.chance(1, 2) ? limit : SIZE_MAX, false}));
    if (parts.ok() && !sep.empty())
    {
        EV("join");
        expect_str("join(views)", CALL("join(views)", shim::join_views(parts.v, ip)), s, ctx + " of its parts");
        std::vector<string> v(parts.v.begin(), parts.v.end());
        expect_str("join(strings)", CALL("join(strings)", shim::join(v, ip)), s, ctx + " of its parts");
        std::list<string> l(v.begin(), v.end());
        expect_str("join(list)", CALL("join(list)", shim::join_list(l, ip)), s, ctx + " of its parts");
        string all; for (auto& x : v) all += x;
        expect_str("join(default)", CALL("join(default)", shim::join_default(parts.v)), all, ctx);
    }
}
void prop_case(Src& src)
{
    string s, sep;
    if (src.chance(1, 3)) { s = gen::bytes(src); sep = gen::byte_pattern(src, s); }
    else { auto t = gen::text(src); s = model::enc(t); sep = model::enc(src.chance(1, 2) ? gen::list(src, t).substr(0, 2) : gen::pattern(src, t)); }
    by_string(src, s, sep);

    auto t = gen::text(src, src.chance(1, 2) ? gen::NEWLINES : gen::SPACES);
    s = model::enc(t);
    auto v = model::parse(s);
    In is(s);
    auto list = gen::list(src, t);
    {
        In32 il(list);
        auto f = [&](size_t p) { auto c = model::find_first_cp(v, [&](uint32_t x) { return list.find(char32_t(x)) != list.npos; }, p); return Range{c.off, c.ok ? c.len : 0}; };
        auto ctx = "(" + esc(s) + ", list " + esc32(list) + ")";
        variants(src, "split(list)", s, is, f, [&](ys::SplitParams p) { return CALL("split(list)", ys::split(is, u32string_view(il), p)); }, ctx);
    }
    {
        auto f = [&](size_t p) { return model::find_first_newline(s, v, p); };
        auto ctx = "(" + esc(s) + ")";
        if (s.find("\r\n") != s.npos) EV("crlf");
        variants(src, "split_lines", s, is, f, [&](ys::SplitParams p) { return CALL("split_lines", ys::split_lines(is, p)); }, ctx);
    }
    {
        // A finder of runs of characters from the list, as one separator.
        auto run = [&](string_view w)
        {
            auto q = model::parse(w);
            for (size_t i = 0; i < q.size(); ++i)
                if (list.find(char32_t(q[i].c)) != list.npos)
                {
                    auto j = i;
                    while (j + 1 < q.size() && list.find(char32_t(q[j + 1].c)) != list.npos) ++j;
                    return Subrange(q[i].off, q[j].end() - q[i].off);
                }
            return Subrange(w.size(), 0);
        };
        auto f = [&](size_t p) { auto r = run(string_view(s).substr(p)); return Range{r.length ? p + r.offset : NONE, r.length}; };
        auto ctx = "(" + esc(s) + ", runs of " + esc32(list) + ")";
        if (s.size() < 600)
        {
            variants(src, "split_where", s, is, f, [&](ys::SplitParams p) { return CALL("split_where", shim::split_where(is, run, p)); }, ctx);
            tokens("a run finder", is, s, run, f, ctx);
        }
    }
    if (src.chance(1, 6)) fw::sample("split " + esc(s, 60) + " at " + esc32(list));
}
// All strings up to length 8 over {a , b}, separators up to length 2, limits 0-4.
static uint8_t zero_tape[64];
// Also lists of all lengths, and texts of any number of parts up to 520.
constexpr uint64_t COUNTS = 520;
static const size_t JOINED[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000};
static uint64_t others() { return 6561 + gen::LIST_SWEEPS + COUNTS + std::size(JOINED); }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
// Any number of strings, empty ones among them, joined by delimiters of several lengths.
static uint64_t joined(size_t count)
{
    uint64_t n = 0;
    for (int shape = 0; shape < 8; ++shape)
        for (string delim : {"", ",", "\xC3\xA5", "--", "a delimiter of more than sixteen bytes"})
        {
            std::vector<string> v(count, shape == 0 ? "" : "a");
            switch (shape)
            {
            case 2: v[0] = ""; break;
            case 3: v.back() = ""; break;
            case 4: v[count / 2] = ""; break;
            case 5: for (size_t i = 0; i < count; i += 3) v[i] = ""; break;
            case 6: for (size_t i = 0; i < count; ++i) v[i] = string(i % 23, char('a' + i % 26)); break;
            case 7: v[0] = string(5000, 'x'); v.back() = "\xE2\x82\xAC"; v[count / 2] += string(700, 'y'); break;
            }
            string e, all;
            for (size_t i = 0; i < count; ++i) { if (i) e += delim; e += v[i]; all += v[i]; }
            std::vector<string_view> w(v.begin(), v.end());
            In id(delim);
            auto ctx = "(" + num(count) + " strings of shape " + num(shape) + ", " + esc(delim) + ")";
            expect_str("join(views)", CALL("join(views)", shim::join_views(w, id)), e, ctx);
            expect_str("join(strings)", CALL("join(strings)", shim::join(v, id)), e, ctx);
            if (count < 10000) { std::list<string> l(v.begin(), v.end()); expect_str("join(list)", CALL("join(list)", shim::join_list(l, id)), e, ctx); }
            if (delim.empty()) expect_str("join(default)", CALL("join(default)", shim::join_default(w)), all, ctx);
            n += 3;
        }
    return n;
}
static uint64_t lists(uint32_t k)
{
    uint64_t n = 0;
    gen::sweep_lists(k, [&](const u32string& l, uint32_t base, uint32_t step)
    {
        In32 il(l);
        auto probes = gen::sweep_probes(l, base, step);
        for (size_t j = 0; j + 2 < probes.size(); j += 3)
        {
            auto t = U"~" + probes.substr(j, 1) + U"\uFFFF" + probes.substr(j + 1, 2) + U"\uFFFF";
            auto s = model::enc(t);
            auto v = model::parse(s);
            In is(s);
            auto f = [&](size_t p) { auto c = model::find_first_cp(v, [&](uint32_t x) { return l.find(char32_t(x)) != l.npos; }, p); return Range{c.off, c.ok ? c.len : 0}; };
            auto ctx = "(" + esc(s) + ", list " + esc32(l) + ")";
            check("split(list)", CALL("split(list)", ys::split(is, u32string_view(il))), is, model::split(s.size(), f, SIZE_MAX, false), ctx);
            check("split(list)", CALL("split(list)", ys::split(is, u32string_view(il), {1, true})), is, model::split(s.size(), f, 1, true), ctx + " limit 1");
            n += 2;
        }
    });
    return n;
}
static uint64_t counts(size_t count)
{
    uint64_t n = 0;
    struct K { const char* part; const char* sep; };
    static const K kinds[] = {{"ab", ","}, {"", ","}, {"\xC3\xA5", "\n"}, {"", "\r\n"}, {"x", "\xE2\x80\xA8"}, {"1", "--"}, {"abcdefghijklmnopqrstuvw", "; "}};
    for (auto& k : kinds)
        for (int tail = 0; tail < 2; ++tail)
        {
            string s, sep = k.sep;
            for (size_t j = 0; j < count; ++j) { if (j) s += sep; s += k.part; }
            if (tail) s += sep;
            auto v = model::parse(s);
            auto cps = model::cps(sep);
            In is(s), ip(sep);
            In32 il(cps);
            auto fs = [&](size_t p) { auto x = model::find_first(s, sep, p); return Range{x, x == NONE ? 0 : sep.size()}; };
            auto fn = [&](size_t p) { return model::find_first_newline(s, v, p); };
            auto fl = [&](size_t p) { auto c = model::find_first_cp(v, [&](uint32_t x) { return cps.find(char32_t(x)) != cps.npos; }, p); return Range{c.off, c.ok ? c.len : 0}; };
            auto ctx = "(" + std::to_string(count) + " parts " + esc(k.part) + " separated by " + esc(sep) + (tail ? " and one more" : "") + ")";
            auto ms = model::split_all(s.size(), fs).parts, mn = model::split_all(s.size(), fn).parts, ml = model::split_all(s.size(), fl).parts;
            check("split(string)", CALL("split(string)", ys::split(is, ip.sv())), is, ms, ctx);
            check("split(list)", CALL("split(list)", ys::split(is, u32string_view(il))), is, ml, ctx);
            check("split_lines", CALL("split_lines", ys::split_lines(is)), is, mn, ctx);
            for (size_t limit : {count - 1, count, count / 2, size_t(1)})
            {
                bool ignore = (limit + count) & 1;
                auto c = ctx + " limit " + std::to_string(limit) + (ignore ? " ignoring empty parts" : "");
                check("split(string)", CALL("split(string)", ys::split(is, ip.sv(), {limit, ignore})), is, model::split(s.size(), fs, limit, ignore), c);
                check("split_lines", CALL("split_lines", ys::split_lines(is, {limit, ignore})), is, model::split(s.size(), fn, limit, ignore), c);
                n += 2;
            }
            tokens("find_first", is, s, [&](string_view w) { auto x = model::find_first(w, sep, 0); return x == NONE ? Subrange() : Subrange(x, sep.size()); }, fs, ctx);
            std::vector<string_view> parts(count, k.part);
            auto joined = tail ? s.substr(0, s.size() - sep.size()) : s;
            expect_str("join(views)", CALL("join(views)", shim::join_views(parts, ip)), joined, ctx);
            n += 5;
        }
    return n;
}
// Parts and separators of all lengths
static uint64_t lengths(uint32_t k)
{
    uint64_t p = 0;
    p += gen::pairs(k, [&](char32_t x, char32_t y)
    {
        auto a = model::enc(x), b = model::enc(y);
        auto s = b + a + b + b + "z" + a;
        auto v = model::parse(s);
        In is(s), ib(b);
        auto ctx = "(" + esc(s) + ", separated by " + esc(b) + ")";
        auto fs = [&](size_t q) { auto at = model::find_first(s, b, q); return Range{at, at == NONE ? 0 : b.size()}; };
        check("split(string)", CALL("split(string)", ys::split(is, ib.sv())), is, model::split(s.size(), fs, SIZE_MAX, false), ctx);
        u32string l(1, y);
        In32 il(l);
        check("split(list)", CALL("split(list)", ys::split(is, u32string_view(il), ys::IGNORE_EMPTY)), is, model::split(s.size(), fs, SIZE_MAX, true), ctx);
        auto fn = [&](size_t q) { return model::find_first_newline(s, v, q); };
        check("split_lines", CALL("split_lines", ys::split_lines(is)), is, model::split(s.size(), fn, SIZE_MAX, false), ctx);
    });
    for (auto n : gen::long_sizes(k))
    {
        auto c = model::enc(gen::long_text(n, n % 3 ? 0 : 2));
        string near;
        if (n) for (size_t at : {size_t(0), c.size() / 2, c.size() - 1}) { auto x = c; x[at] ^= 1; near += x; }
        struct K { string s, sep; };
        for (auto& [s, sep] : {K{c + "," + c + ",,x", ","}, K{",x" + c, ","}, K{c + "\n" + c + "\r\n\n" + c, "\n"}, K{c, ","}, K{"a" + c + "b" + c, c}, K{near + c + near + c, c}, K{c + c + c.substr(0, c.size() / 2), c}, K{near, c}})
        {
            auto v = model::parse(s);
            In is(s), ip(sep);
            auto fs = [&, &s = s, &sep = sep](size_t q) { auto x = sep.empty() ? NONE : model::find_first(s, sep, q); return Range{x, x == NONE ? 0 : sep.size()}; };
            auto ctx = "(" + esc(s) + ", separated by " + esc(sep) + ")";
            if (!sep.empty())
            {
                check("split(string)", CALL("split(string)", ys::split(is, ip.sv())), is, model::split(s.size(), fs, SIZE_MAX, false), ctx);
                check("split(string)", CALL("split(string)", ys::split(is, ip.sv(), {1, true})), is, model::split(s.size(), fs, 1, true), ctx + " limit 1");
                ++p;
            }
            if (sep.size() == 1 && (model::valid(s)))
            {
                u32string l(1, char32_t(sep[0]));
                In32 il(l);
                check("split(list)", CALL("split(list)", ys::split(is, u32string_view(il))), is, model::split(s.size(), fs, SIZE_MAX, false), ctx);
                auto fn = [&](size_t q) { return model::find_first_newline(s, v, q); };
                check("split_lines", CALL("split_lines", ys::split_lines(is)), is, model::split(s.size(), fn, SIZE_MAX, false), ctx);
                check("split_lines", CALL("split_lines", ys::split_lines(is, ys::IGNORE_EMPTY)), is, model::split(s.size(), fn, SIZE_MAX, true), ctx);
                p += 3;
            }
        }
        // Many separators, and nothing else
        if (n <= 5000)
        {
            string s(n, ','), lines(n, '\n');
            In is(s), il(lines), ip(string_view(","));
            std::vector<Range> e;
            for (size_t j = 0; j <= n; ++j) e.push_back({j, 0});
            check("split(string)", CALL("split(string)", ys::split(is, ip.sv())), is, e, "(" + num(n) + " commas)");
            check("split_lines", CALL("split_lines", ys::split_lines(il)), il, e, "(" + num(n) + " newlines)");
            check("split_lines", CALL("split_lines", ys::split_lines(il, ys::IGNORE_EMPTY)), il, {}, "(" + num(n) + " newlines) ignoring empty parts");
            p += 3;
        }
        for (auto& v : {std::vector<string>{c, "a", c}, std::vector<string>{"", c, ""}, std::vector<string>{c}, std::vector<string>{"x", c}, std::vector<string>{c, ""}})
            for (auto& delim : {c, string(","), string()})
            {
                string e;
                for (size_t j = 0; j < v.size(); ++j) { if (j) e += delim; e += v[j]; }
                std::vector<string_view> w(v.begin(), v.end());
                In id(delim);
                auto ctx = "(" + num(v.size()) + " strings, the longest " + num(c.size()) + " bytes, " + esc(delim) + ")";
                expect_str("join(views)", CALL("join(views)", shim::join_views(w, id)), e, ctx);
                expect_str("join(strings)", CALL("join(strings)", shim::join(v, id)), e, ctx);
                ++p;
            }
    }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    if (i >= 6561)
    {
        i -= 6561;
        if (i >= gen::LIST_SWEEPS + COUNTS) { fw::exhaustive_points(joined(JOINED[i - gen::LIST_SWEEPS - COUNTS])); return; }
        fw::exhaustive_points(i < gen::LIST_SWEEPS ? lists(uint32_t(i)) : counts(size_t(i - gen::LIST_SWEEPS + 1)));
        return;
    }
    string s;
    for (auto k = i; k; k /= 3) s += "a,b"[(k % 3)];
    In is(s);
    uint64_t n = 0;
    for (string sep : {",", "a", ",,", "a,", ",a"})
    {
        In ip(sep);
        auto f = [&](size_t p) { auto x = model::find_first(s, sep, p); return Range{x, x == NONE ? 0 : sep.size()}; };
        for (size_t limit : {size_t(0), size_t(1), size_t(2), size_t(3), SIZE_MAX})
            for (bool ignore : {false, true})
            {
                auto r = CALL("split(string)", ys::split(is, ip.sv(), {limit, ignore}));
                check("split(string)", r, is, model::split(s.size(), f, limit, ignore), "(" + esc(s) + ", " + esc(sep) + ", " + std::to_string(limit) + ")");
                ++n;
            }
    }
    (void)zero_tape;
    fw::exhaustive_points(n);
}
