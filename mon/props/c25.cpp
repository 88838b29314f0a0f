#include "../common.hpp"
const char* const PROP_ID = "C25";
void prop_init()
{
    uni::load();
    for (auto n : {"member", "non-member", "negated", "adjacent", "overlapping", "contained-range", "descending", "reversed-range", "whole-range", "extreme-values", "duplicate", "ci-member-by-mapping", "ci-range-member", "ci-range-non-member",
                   "empty-set", "list-member", "list-non-member", "list-ci-by-mapping", "string-added", "printed"}) fw::require(n);
}
struct Op { int kind; uint32_t a, b; u32string s; };
static uint32_t any(Src& src, uint32_t prev)
{
    if (src.chance(1, 12)) return src.chance(1, 3) ? 0xFFFFFFFFu - src.below(3) : src.chance(1, 2) ? 0x110000 + src.below(4) : src.u32();
    if (src.chance(1, 3)) return prev + src.below(5) - 2;
    return gen::cp(src, prev);
}
static std::vector<std::pair<uint32_t, uint32_t>> fill(ys::CodepointSet& set, const std::vector<Op>& ops)
{
    std::vector<std::pair<uint32_t, uint32_t>> m;
    for (auto& o : ops)
    {
        bool ok;
        switch (o.kind)
        {
        case 0: ok = CALL("add_codepoint", (set.add_codepoint(char32_t(o.a)), 0)).ok(); m.emplace_back(o.a, o.a); break;
        case 1: ok = CALL("add_range", (set.add_range(char32_t(o.a), char32_t(o.b)), 0)).ok(); if (o.a <= o.b) m.emplace_back(o.a, o.b); break;
        default: { In32 s(o.s); ok = CALL("add_codepoints", (set.add_codepoints(s), 0)).ok(); for (auto c : o.s) m.emplace_back(c, c); EV("string-added"); }
        }
        if (!ok) FAIL("throw:add", "adding to a CodepointSet threw");
    }
    return m;
}
static string show(const std::vector<Op>& ops)
{
    string r = "{";
    for (auto& o : ops) r += o.kind == 0 ? hexs(o.a) + " " : o.kind == 1 ? hexs(o.a) + "-" + hexs(o.b) + " " : esc32(o.s) + " ";
    return r + "}";
}
// Is some code point with the same upper case mapping as c a member?
static const std::vector<uint32_t>& same_upper(uint32_t c)
{
    static const auto* m = []
    {
        auto* p = new std::vector<std::vector<uint32_t>>(0x110000);
        for (uint32_t i = 0; i <= uni::MAX; ++i) if (uni::upper(i) != i) { (*p)[uni::upper(i)].push_back(i); }
        for (uint32_t i = 0; i <= uni::MAX; ++i) if (!(*p)[i].empty()) (*p)[i].push_back(i);
        return p;
    }();
    static const std::vector<uint32_t> none;
    return c <= uni::MAX ? (*m)[uni::upper(c)] : none;
}
static void probe(ys::CodepointSet& set, const std::vector<std::pair<uint32_t, uint32_t>>& m, uint32_t c, const string& ctx)
{
    auto in = [&](uint32_t x) { for (auto& [a, b] : m) if (a <= x && x <= b) return true; return false; };
    bool e = in(c);
    for (bool neg : {false, true})
    {
        set.negated = neg;
        expect_eq("CodepointSet::contains", CALL("CodepointSet::contains", set.contains(char32_t(c))), e != neg, (neg ? "^" : "") + ctx + " contains U+" + hexs(c));
    }
    EV("negated");
    if (e) EV("member"); else EV("non-member");
    bool ce = e;
    if (!ce) for (auto x : same_upper(c)) if (in(x)) { ce = true; EV("ci-member-by-mapping"); break; }
    // The test the library applies to a range of several code points: does the
    // mapped code point lie between the mapped ends?
    bool interval = false, multi = false;
    for (auto& [a, b] : set.ranges) // (it has merged successive code points)
    {
        if (a != b) multi = true;
        if (a == b ? uni::upper(a) == uni::upper(c) : uni::upper(a) <= uni::upper(c) && uni::upper(c) <= uni::upper(b)) interval = true;
    }
    for (bool neg : {false, true})
    {
        set.negated = neg;
        auto r = CALL("CodepointSet::case_insensitive_contains", set.case_insensitive_contains(char32_t(c)));
        if (!r.ok()) FAIL("throw:case_insensitive_contains", "case_insensitive_contains threw");
        else if (r.v != (ce != neg))
            FAIL(multi && r.v == (interval != neg) ? (ce ? "ci-range-interval:missing" : "ci-range-interval:extra") : "value:CodepointSet::case_insensitive_contains",
                 (neg ? "^" : "") + ctx + " case_insensitive_contains U+" + hexs(c) + " = " + (r.v ? "true" : "false"));
    }
    if (multi) { if (ce) EV("ci-range-member"); else EV("ci-range-non-member"); }
}
static void judge(const std::vector<Op>& ops, Src* src)
{
    ys::CodepointSet set;
    auto m = fill(set, ops);
    auto ctx = show(ops);
    std::vector<uint32_t> probes = {0, 1, 0x10FFFF, 0x110000, 0xFFFFFFFF};
    for (auto& [a, b] : m)
    {
        for (auto x : {a - 1, a, a + 1, b - 1, b, b + 1, a + (b - a) / 2, uni::upper(a), uni::lower(a), uni::title(b)}) probes.push_back(x);
        if (a != 0 || b != 0) { if (b == 0xFFFFFFFF) EV("extreme-values"); }
    }
    for (auto& o : ops) { if (o.kind == 1 && o.a > o.b) { EV("reversed-range"); probes.push_back(o.b + (o.a - o.b) / 2); probes.push_back(o.a); probes.push_back(o.b); } }
    if (src) for (int i = 0; i < 4; ++i) probes.push_back(any(*src, m.empty() ? 'a' : m[src->below(uint32_t(m.size()))].first));
    if (src && probes.size() > 60)
    {
        // Any 60 of them
        for (size_t i = 0; i < 60; ++i) std::swap(probes[i], probes[i + src->below(uint32_t(probes.size() - i))]);
        probes.resize(60);
    }
    for (auto c : probes) probe(set, m, c, ctx);
    for (size_t i = 1; i < m.size(); ++i)
    {
        if (m[i].first == m[i - 1].second + 1) EV("adjacent");
        if (m[i].first <= m[i - 1].second && m[i].second >= m[i - 1].first) EV("overlapping");
        if (m[i].first > m[i - 1].first && m[i].second < m[i - 1].second) EV("contained-range");
        if (m[i].first < m[i - 1].first) EV("descending");
        if (m[i] == m[i - 1]) EV("duplicate");
    }
    for (auto& [a, b] : m) if (a == 0 && b >= uni::MAX) EV("whole-range");
    if (m.empty()) EV("empty-set");
    fw::note(fw::Hash().add(ctx).h, !m.empty());
}
void prop_case(Src& src)
{
    std::vector<Op> ops;
    uint32_t prev = 'a';
    for (auto k = src.below(src.chance(1, 8) ? 90 : src.chance(1, 5) ? 12 : 5); k; --k)
    {
        Op o{int(src.below(3)), any(src, prev), 0, {}};
        switch (src.below(8))
        {
        case 0: o.b = any(src, o.a); break;
        case 1: o.b = o.a; break;
        case 2: o.b = o.a - 1 - src.below(3); break;
        case 3: o.a = 0; o.b = src.chance(1, 2) ? uni::MAX : 0xFFFFFFFF; break;
        default: { auto w = src.below(src.chance(1, 4) ? 0x3000 : 12); o.b = o.a + w < o.a ? 0xFFFFFFFF : o.a + w; }
        }
        prev = o.kind == 1 ? (src.chance(1, 2) ? o.a : o.b) : o.a;
        if (o.kind == 2)
            for (auto n = src.below(6); n; --n) { o.s += char32_t(prev); prev = src.chance(1, 2) ? prev + 1 : any(src, prev); }
        ops.push_back(o);
    }
    judge(ops, &src);
    // The order of the additions doesn't matter (probed against the model again)
    if (ops.size() > 1) { auto i = src.below(uint32_t(ops.size())), j = src.below(uint32_t(ops.size())); std::swap(ops[i], ops[j]); judge(ops, &src); }
    // Printing the set doesn't change it and is deterministic.
    {
        ys::CodepointSet set;
        bool printable = true;
        for (auto& o : ops) { if (o.a > uni::MAX || (o.kind == 1 && o.b > uni::MAX)) printable = false; for (auto c : o.s) if (c > uni::MAX) printable = false; }
        if (printable)
        {
            fill(set, ops);
            auto before = set.ranges;
            auto r = CALL("operator<<(CodepointSet)", shim::print(set));
            if (!r.ok() || r.v.size() < 2 || r.v.front() != '[' || r.v.back() != ']' || set.ranges != before) FAIL("print", "printing " + show(ops) + " failed");
            EV("printed");
        }
    }
    // Plain lists
    auto t = gen::text(src, gen::CASE);
    auto list = gen::list(src, t, gen::CASE);
    if (src.chance(1, 10)) list += t;
    if (src.chance(1, 8)) list += char32_t(any(src, 'a'));
    In32 il(list);
    for (int i = 0; i < 6; ++i)
    {
        uint32_t c = list.empty() || src.chance(1, 4) ? any(src, 'a') : list[src.below(uint32_t(list.size()))];
        if (src.chance(1, 2)) c = src.chance(1, 2) ? uni::upper(c) : uni::lower(c);
        bool e = list.find(char32_t(c)) != list.npos, ce = false;
        for (auto x : list) if (uni::upper(x) == uni::upper(c)) ce = true;
        auto ctx = "(" + esc32(list) + ", U+" + hexs(c) + ")";
        expect_eq("contains(list)", CALL("contains(list)", ys::contains(u32string_view(il), char32_t(c))), e, ctx);
        expect_eq("case_insensitive_contains(list)", CALL("case_insensitive_contains(list)", ys::case_insensitive_contains(u32string_view(il), char32_t(c))), ce, ctx);
        if (e) EV("list-member"); else EV("list-non-member");
        if (ce && !e) EV("list-ci-by-mapping");
    }
    if (src.chance(1, 6)) fw::sample(show(ops));
}
// All sequences of three additions over 0..5 (code points and ranges), all members probed;
// all single code point sets of cased code points.
// Lists and sets of all sizes, with one range that contains or touches others at each place.
uint64_t prop_exhaustive_count() { return 42 * 42 + 64 + gen::LIST_SWEEPS + gen::LONG_SWEEPS; }
// Sets of any number of ranges, and long lists
static uint64_t many(uint32_t k)
{
    uint64_t p = 0;
    for (auto n : gen::long_sizes(k))
    {
        if (n == 0 || (n < 4000 && n % 3 == 2)) continue;
        // Ranges of one to three code points with gaps between; ascending, descending or shuffled
        auto unit = uint32_t(n > 100000 ? 8 : std::min<size_t>(0x10F000 / n, 5 + n % 50));
        std::vector<std::pair<uint32_t, uint32_t>> m;
        for (uint32_t j = 0; j < n; ++j) { auto a = 0x100 + j * unit; m.emplace_back(a, a + (unit > 4 ? j % 3 : 0)); }
        auto at = [&](uint32_t j) { return n % 3 == 0 ? j : n % 2 ? uint32_t(n) - 1 - j : uint32_t(uint64_t(j) * 7919 % n); };
        ys::CodepointSet set;
        bool quadratic = n > 5000 && n % 3; // (each addition out of order moves the rest)
        bool direct = n > 20000;
        for (uint32_t j = 0; j < n; ++j)
        {
            auto [a, b] = m[quadratic || n % 7919 == 0 ? j : at(j)];
            if (direct) set.ranges.emplace_back(char32_t(a), char32_t(b));
            else if (a == b && j % 2) CALL("add_codepoint", (set.add_codepoint(char32_t(a)), 0));
            else CALL("add_range", (set.add_range(char32_t(a), char32_t(b)), 0));
        }
        auto ctx = "{" + std::to_string(n) + " ranges}";
        auto last = uint32_t(n) - 1;
        for (uint32_t j : {uint32_t(0), uint32_t(1), last / 3, last / 2, last / 2 + 1, uint32_t(n * 3 / 4), last ? last - 1 : 0, last})
        {
            if (j >= n) continue;
            auto [a, b] = m[j];
            for (auto c : {a - 1, a, a + 1, b, b + 1, b + 2})
            {
                bool e = false;
                for (auto x : {j ? j - 1 : j, j, j < last ? j + 1 : j}) if (m[x].first <= c && c <= m[x].second) e = true;
                for (bool neg : {false, true})
                {
                    set.negated = neg;
                    expect_eq("CodepointSet::contains", CALL("CodepointSet::contains", set.contains(char32_t(c))), e != neg, (neg ? "^" : "") + ctx + " contains U+" + hexs(c));
                }
                ++p;
            }
            // A member is a member whatever its case
            if (n % 4 == 0 && a == b)
            {
                set.negated = false;
                auto r = CALL("CodepointSet::case_insensitive_contains", set.case_insensitive_contains(char32_t(a)));
                if (!r.ok() || !r.v) FAIL("value:CodepointSet::case_insensitive_contains", ctx + " case_insensitive_contains U+" + hexs(a) + " = false");
                ++p;
            }
        }
        set.negated = false;
        expect_eq("CodepointSet::contains", CALL("CodepointSet::contains", set.contains(U'\x7F')), false, ctx + " contains U+7F");
        expect_eq("CodepointSet::contains", CALL("CodepointSet::contains", set.contains(char32_t(0x10FFFE))), false, ctx + " contains U+10FFFE");
        // Lists
        auto l = gen::long_text(n, 1);
        l[n / 2] = 0xE001; l[n - 1] = 0x1F1;
        In32 il(l);
        auto lc = "(list of " + std::to_string(n) + ", U+";
        for (uint32_t c : {uint32_t(l[0]), 0xE001u, 0x1F1u, 0x1F2u, 0x1F3u, 0xE002u, 0x7Eu})
        {
            bool e = l.find(char32_t(c)) != l.npos, ce = false;
            for (auto x : l) if (uni::upper(x) == uni::upper(c)) ce = true;
            expect_eq("contains(list)", CALL("contains(list)", ys::contains(u32string_view(il), char32_t(c))), e, lc + hexs(c) + ")");
            expect_eq("case_insensitive_contains(list)", CALL("case_insensitive_contains(list)", ys::case_insensitive_contains(u32string_view(il), char32_t(c))), ce, lc + hexs(c) + ")");
            ++p;
        }
    }
    return p;
}
static uint64_t sizes(uint32_t k)
{
    uint64_t n = 0;
    gen::sweep_lists(k, [&](const u32string& l, uint32_t base, uint32_t step)
    {
        In32 il(l);
        auto probes = gen::sweep_probes(l, base, step);
        for (auto c : probes)
            for (uint32_t d : {uint32_t(c), uni::upper(c), uni::lower(c)})
            {
                bool e = l.find(char32_t(d)) != l.npos, ce = false;
                for (auto x : l) if (uni::upper(x) == uni::upper(d)) ce = true;
                auto ctx = "(" + esc32(l) + ", U+" + hexs(d) + ")";
                expect_eq("contains(list)", CALL("contains(list)", ys::contains(u32string_view(il), char32_t(d))), e, ctx);
                expect_eq("case_insensitive_contains(list)", CALL("case_insensitive_contains(list)", ys::case_insensitive_contains(u32string_view(il), char32_t(d))), ce, ctx);
                ++n;
            }
        if (step == 1 || l.empty()) return;
        // Single code points, some of them replaced by short or long ranges
        for (int wide = 0; wide < 4; ++wide)
        {
            std::vector<Op> ops;
            for (size_t j = 0; j < l.size(); ++j)
            {
                bool special = wide && j == (l.size() * size_t(wide) / 4 + base) % l.size();
                ops.push_back(special ? Op{1, uint32_t(l[j]) - (wide == 2 ? 7 : 0), uint32_t(l[j]) + (wide == 3 ? 2 : 10 * uint32_t(wide)), {}} : Op{0, l[j], 0, {}});
            }
            ys::CodepointSet set;
            auto m = fill(set, ops);
            auto ctx = show(ops).substr(0, 300);
            for (auto c : probes) { probe(set, m, c, ctx); probe(set, m, c + 1, ctx); probe(set, m, c + 2, ctx); n += 3; }
        }
    });
    return n;
}
void prop_exhaustive(uint64_t i)
{
    auto op = [](uint32_t k) { return k < 6 ? Op{0, k, 0, {}} : Op{1, (k - 6) / 6, (k - 6) % 6, {}}; };
    uint64_t n = 0;
    if (i >= 42 * 42 + 64 + gen::LIST_SWEEPS) n = many(uint32_t(i - 42 * 42 - 64 - gen::LIST_SWEEPS));
    else if (i >= 42 * 42 + 64) n = sizes(uint32_t(i - 42 * 42 - 64));
    else if (i < 42 * 42)
    {
        for (uint32_t k = 0; k < 42; ++k)
        {
            std::vector<Op> ops = {op(uint32_t(i) % 42), op(uint32_t(i / 42)), op(k)};
            ys::CodepointSet set;
            auto m = fill(set, ops);
            for (uint32_t c = 0; c < 7; ++c)
            {
                bool e = false;
                for (auto& [a, b] : m) if (a <= c && c <= b) e = true;
                set.negated = false;
                expect_eq("CodepointSet::contains", CALL("CodepointSet::contains", set.contains(char32_t(c))), e, show(ops) + " contains U+" + hexs(c));
                ++n;
            }
        }
    }
    else
    {
        for (size_t k = i - 42 * 42; k < uni::cased.size(); k += 64)
        {
            auto c = uni::cased[k];
            for (auto d : {uni::upper(c), uni::lower(c), uni::title(c), c + 1, c - 1, uni::lower(uni::upper(c))})
            {
                ys::CodepointSet set;
                set.ranges.emplace_back(char32_t(c), char32_t(c));
                probe(set, {{c, c}}, d, "{" + hexs(c) + "}");
                ++n;
            }
        }
    }
    fw::exhaustive_points(n);
}
