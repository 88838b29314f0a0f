#include "../common.hpp"
const char* const PROP_ID = "C05";
void prop_init()
{
    uni::load();
    for (auto n : {"front", "back", "rest-empty", "lead-without-all-continuation", "excess-continuation", "all-continuation", "illegal-lead", "well-formed", "list-iterator"}) fw::require(n);
}
static size_t fwd(string_view s, size_t pos) { return model::step(s, pos).end(); }
static size_t bwd(string_view s, size_t begin, size_t pos)
{
    auto b = model::skip_back(s, begin, pos);
    if (b.all_continuation) EV("all-continuation");
    if (b.illegal) EV("illegal-lead");
    if (b.missing) EV("lead-without-all-continuation");
    if (b.excess) EV("excess-continuation");
    return b.pos;
}
static void check(const char* fn, const fw::Res<shim::Step>& r, size_t e, bool moved, const string& ctx)
{
    if (!r.ok()) { FAIL(string("throw:") + fn, string(fn) + ctx + " threw"); return; }
    if (r.v.pos != e || r.v.result != moved)
        FAIL(string("step:") + fn, string(fn) + ctx + " -> " + std::to_string(r.v.pos) + (r.v.result ? " true" : " false") + ", expected " + std::to_string(e));
}
static void judge(string_view s, Src* src)
{
    In is(s);
    std::list<char> l;
    if (s.size() <= 64) l.assign(s.begin(), s.end());
    size_t stride = s.size() > 300 ? s.size() / 50 : 1;
    for (size_t i = 0; i <= s.size(); i += stride)
    {
        bool end = i == s.size(), beg = i == 0;
        auto e1 = end ? i : fwd(s, i), e2 = beg ? i : bwd(s, 0, i);
        check("skip_next", CALL("skip_next", shim::skip_next(is, i, s.size())), e1, !end, at(s, i));
        check("skip_prev", CALL("skip_prev", shim::skip_prev(is, 0, i)), e2, !beg, at(s, i));
        if (!l.empty())
        {
            EV("list-iterator");
            check("skip_next(list)", CALL("skip_next(list)", shim::list_skip_next(l, i)), e1, !end, at(s, i));
            check("skip_prev(list)", CALL("skip_prev(list)", shim::list_skip_prev(l, i)), e2, !beg, at(s, i));
        }
        // Sub-ranges: neither looks past the given end.
        if (src && i)
        {
            auto b = src->below(uint32_t(i)) ;
            check("skip_prev", CALL("skip_prev", shim::skip_prev(is, b, i)), bwd(s, b, i), true, at(s, i) + " from " + std::to_string(b));
            check("skip_next", CALL("skip_next", shim::skip_next(is, b, i)), model::step(s.substr(0, i), b).end(), true, at(s, b) + " up to " + std::to_string(i));
        }
    }
    bool valid = model::valid(s);
    if (valid) EV("well-formed");
    // Interleaved steps from both ends
    string_view v = is;
    size_t a = 0, b = s.size();
    for (int k = 0; k < 300; ++k)
    {
        bool front = src ? src->chance(1, 2) : k % 3 != 1;
        bool pop = src && src->chance(1, 4);
        auto cur = s.substr(a, b - a);
        auto before = v;
        if (pop)
        {
            auto c = cur.empty() ? model::Cp{0, 0, 0, false} : front ? model::step(cur, 0) : model::step_back(cur, cur.size());
            auto fn = front ? "pop_utf8_codepoint" : "pop_last_utf8_codepoint";
            auto r = front ? CALL("pop_utf8_codepoint", shim::pop_utf8_codepoint(v)) : CALL("pop_last_utf8_codepoint", shim::pop_last_utf8_codepoint(v));
            if (cur.empty() ? (!r.ok() || r.v) : c.ok ? (!r.ok() || r.v != char32_t(c.c)) : !r.threw())
                FAIL(string("pop:") + fn, string(fn) + "(" + esc(cur) + "): wrong result");
            if (!r.ok() || !c.ok) { if (v.data() != before.data() || v.size() != before.size()) FAIL(string("pop:") + fn, string(fn) + "(" + esc(cur) + ") changed the view"); }
            if (c.ok) { if (front) a += c.len; else b -= c.len; }
        }
        else
        {
            auto fn = front ? "remove_utf8_codepoint" : "remove_last_utf8_codepoint";
            auto r = front ? CALL("remove_utf8_codepoint", shim::remove_utf8_codepoint(v)) : CALL("remove_last_utf8_codepoint", shim::remove_last_utf8_codepoint(v));
            if (!r.ok() || r.v != !cur.empty()) FAIL(string("value:") + fn, string(fn) + "(" + esc(cur) + "): wrong result");
            if (!cur.empty()) { if (front) { a += fwd(cur, 0); EV("front"); } else { b = a + bwd(cur, 0, cur.size()); EV("back"); } }
            else EV("rest-empty");
        }
        if (is.offset_of("remove", v) != a && !v.empty()) FAIL("rest", "after a step on " + esc(cur) + " the rest starts at the wrong place");
        if (v.size() != b - a) FAIL("rest", "after a step " + string(front ? "forwards" : "backwards") + " on " + esc(cur) + " the rest is " + esc(v));
        if (cur.empty() && k % 2) break;
    }
    fw::note(fw::Hash().add(s).h, !s.empty());
}
void prop_case(Src& src)
{
    auto s = src.chance(1, 5) ? gen::utf8(src) : gen::bytes(src);
    if (src.chance(1, 10))
    {
        // Long runs of continuation bytes, around powers of two
        static const size_t lens[] = {4, 5, 7, 8, 9, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 513, 65535, 65536, 65537};
        auto n = lens[src.below(src.chance(1, 10) ? 19 : 16)];
        s = s.substr(0, std::min<size_t>(s.size(), 4)) + char(0xC0 + src.below(64)) + string(n, char(0x80 + src.below(64))) + (src.chance(1, 2) ? "a" : "");
    }
    judge(s, &src);
    if (src.chance(1, 6)) fw::sample(esc(s, 80));
}
static const unsigned char CLS[] = {0x00, 0x7F, 0x80, 0xBF, 0xC0, 0xDF, 0xE0, 0xEF, 0xF0, 0xF7, 0xF8, 0xFF};
constexpr uint64_t K = sizeof(CLS);
static uint64_t others() { return K * K * K; }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
// Runs of continuation bytes, and well-formed texts, of all lengths
static uint64_t lengths(uint32_t k)
{
    uint64_t p = 0;
    for (auto n : gen::long_sizes(k))
    {
        string cont(n, char(0x80 + n % 64));
        for (auto& t : {cont, "a" + cont, "\xC3" + cont, "\xE2" + cont, "\xF0" + cont, "\xFF" + cont, "\xF7" + cont + "z"}) { judge(t, nullptr); ++p; }
        judge(string(n, '\xE2'), nullptr);
        judge(model::enc(gen::long_text(n, n % 3)), nullptr);
        p += 2;
    }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    string s{char(CLS[i / K / K]), char(CLS[i / K % K]), char(CLS[i % K])};
    uint64_t n = 0;
    auto j = [&](const string& t) { judge(t, nullptr); ++n; };
    j(s);
    for (auto a : CLS)
    {
        j(s + char(a));
        if (model::cont(s[1]) || fw::tier_thorough()) for (auto b : CLS) j(s + char(a) + char(b));
    }
    if (i < K) { j(string(1, char(CLS[i]))); for (auto a : CLS) j(string{char(CLS[i]), char(a)}); }
    if (i == 0) j("");
    fw::exhaustive_points(n);
}
