#include "../common.hpp"
const char* const PROP_ID = "C02";
void prop_init()
{
    uni::load();
    for (auto n : {"ascii", "two-byte", "three-byte", "four-byte", "beyond", "popped-front", "popped-back", "list-iterator", "pointer", "call:append:throw", "call:to_utf32:value", "every-pair"})
        fw::require(n);
}
static void count_len(size_t n) { if (n == 1) EV("ascii"); else if (n == 2) EV("two-byte"); else if (n == 3) EV("three-byte"); else EV("four-byte"); }
static void expect_step(const char* fn, const fw::Res<shim::Step>& r, uint32_t c, size_t pos, const string& ctx)
{
    if (!r.ok()) { FAIL(string("throw:") + fn, string(fn) + ctx + " threw"); return; }
    if (r.v.ch != c || r.v.pos != pos || !r.v.result)
        FAIL(string("step:") + fn, string(fn) + ctx + " = U+" + hexs(r.v.ch) + ", position " + std::to_string(r.v.pos) + "; expected U+" + hexs(c) + ", " + std::to_string(pos));
}
static void beyond(uint32_t c)
{
    EV("beyond");
    string s = "ab\xC3\xA5", before = s;
    auto ctx = "(U+" + hexs(c) + ")";
    auto r1 = CALL("append", ys::append(s, char32_t(c)).size());
    expect_throw("append", r1, ctx);
    if (s != before) FAIL("beyond:append", "append" + ctx + " changed the string to " + esc(s));
    auto r2 = CALL("append", ys::append(string_view("xyz"), char32_t(c)));
    expect_throw("append", r2, ctx);
    for (size_t n = c % 3; n < 70; n += n < 3 ? 1 : 1 + c % 7)
    {
        string x(n, 'q');
        if (n % 2) x.shrink_to_fit();
        expect_throw("append", CALL("append", ys::append(x, char32_t(c)).size()), ctx + " to " + num(n) + " bytes");
        if (x != string(n, 'q')) FAIL("beyond:append", "append" + ctx + " changed a string of " + num(n) + " bytes to " + esc(x));
        In ix(x);
        expect_throw("append", CALL("append", ys::append(ix.sv(), char32_t(c))), ctx + " to a view of " + num(n) + " bytes");
    }
    expect_throw("append", CALL("append", ys::append(string_view(), char32_t(c))), ctx + " to an empty view");
    auto r3 = CALL("from_utf32", ys::from_utf32(char32_t(c)));
    if (r3.ok() && !r3.v.empty()) FAIL("beyond:from_utf32", "from_utf32" + ctx + " = " + esc(r3.v));
    u32string t = {'a', char32_t(c), 0xE5, char32_t(c)};
    In32 it(t);
    auto r4 = CALL("from_utf32", ys::from_utf32(it));
    if (r4.ok() && r4.v != "a\xC3\xA5") FAIL("beyond:from_utf32", "from_utf32" + esc32(t) + " = " + esc(r4.v));
}
static void one(uint32_t c)
{
    auto e = model::enc(c);
    count_len(e.size());
    auto ctx = "(U+" + hexs(c) + ")";
    expect_str("from_utf32", CALL("from_utf32", ys::from_utf32(char32_t(c))), e, ctx);
    string s = "x";
    auto* p = &s;
    auto r = CALL("append", &ys::append(s, char32_t(c)));
    if (!r.ok() || r.v != p || s != "x" + e) FAIL("value:append", "append" + ctx + " gave " + esc(s));
    expect_str("append", CALL("append", ys::append(string_view("\xE2\x82\xAC"), char32_t(c))), "\xE2\x82\xAC" + e, ctx);
    auto mid = "\xC2\xA9" + e + "z";
    In im(mid);
    expect_step("decode_next", CALL("decode_next", shim::decode_next(im, 2, mid.size())), c, 2 + e.size(), ctx);
    expect_step("decode_prev", CALL("decode_prev", shim::decode_prev(im, 0, 2 + e.size())), c, 2, ctx);
    In ie(e);
    expect_step("safe_decode_next", CALL("safe_decode_next", shim::safe_decode_next(ie, 0, e.size())), c, e.size(), ctx);
    expect_step("safe_decode_prev", CALL("safe_decode_prev", shim::safe_decode_prev(ie, 0, e.size())), c, 0, ctx);
    auto v = CALL("to_utf32", ys::to_utf32(ie));
    if (!v.ok() || v.v != u32string(1, char32_t(c))) FAIL("value:to_utf32", "to_utf32" + ctx + " = " + esc32(v.v));
}
static void judge(const u32string& t, Src* src)
{
    auto s = model::enc(t);
    auto v = model::parse(s);
    In is(s);
    In32 it(t);
    auto ctx = "(" + esc32(t) + ")";
    expect_str("from_utf32", CALL("from_utf32", ys::from_utf32(it)), s, ctx);
    auto u = CALL("to_utf32", ys::to_utf32(is));
    if (!u.ok() || u.v != t) FAIL("value:to_utf32", "to_utf32" + ctx + " = " + esc32(u.v));
    auto step = s.size() > 3000 ? v.size() / 100 : 1;
    std::list<char> l;
    if (s.size() < 200) l.assign(s.begin(), s.end());
    for (size_t i = 0; i < v.size(); i += step)
    {
        auto& c = v[i];
        expect_step("decode_next", CALL("decode_next", shim::decode_next(is, c.off, s.size())), c.c, c.end(), at(s, c.off));
        expect_step("decode_prev", CALL("decode_prev", shim::decode_prev(is, 0, c.end())), c.c, c.off, at(s, c.end()));
        expect_step("safe_decode_next", CALL("safe_decode_next", shim::safe_decode_next(is, c.off, s.size())), c.c, c.end(), at(s, c.off));
        expect_step("safe_decode_prev", CALL("safe_decode_prev", shim::safe_decode_prev(is, 0, c.end())), c.c, c.off, at(s, c.end()));
        if (i % 3 == 0)
        {
            expect_step("decode_next(pointer)", CALL("decode_next(pointer)", shim::ptr_decode_next(is, c.off)), c.c, c.end(), at(s, c.off));
            expect_step("decode_prev(pointer)", CALL("decode_prev(pointer)", shim::ptr_decode_prev(is, c.end())), c.c, c.off, at(s, c.end()));
            EV("pointer");
            if (!l.empty())
            {
                expect_step("decode_next(list)", CALL("decode_next(list)", shim::list_decode_next(l, c.off)), c.c, c.end(), at(s, c.off));
                expect_step("decode_prev(list)", CALL("decode_prev(list)", shim::list_decode_prev(l, c.end())), c.c, c.off, at(s, c.end()));
                EV("list-iterator");
            }
        }
    }
    // Popping from both ends
    string_view w = is;
    size_t a = 0, b = v.size();
    while (a < b && b - a < 400)
    {
        bool front = src ? src->chance(1, 2) : (a + b) % 2;
        auto r = front ? CALL("pop_utf8_codepoint", shim::pop_utf8_codepoint(w)) : CALL("pop_last_utf8_codepoint", shim::pop_last_utf8_codepoint(w));
        auto fn = front ? "pop_utf8_codepoint" : "pop_last_utf8_codepoint";
        if (front) EV("popped-front"); else EV("popped-back");
        auto& c = front ? v[a++] : v[--b];
        auto off = is.offset_of(fn, w);
        size_t eo = a < b ? v[a].off : front ? c.end() : c.off, es = a < b ? v[b - 1].end() - v[a].off : 0;
        if (!r.ok() || r.v != char32_t(c.c) || off != eo || w.size() != es)
        {
            FAIL(string("pop:") + fn, string(fn) + " on " + esc(s) + ": rest " + esc(w) + ", expected U+" + hexs(c.c));
            return;
        }
    }
    if (w.empty())
    {
        auto r1 = CALL("pop_utf8_codepoint", shim::pop_utf8_codepoint(w));
        auto r2 = CALL("pop_last_utf8_codepoint", shim::pop_last_utf8_codepoint(w));
        if (!r1.ok() || !r2.ok() || r1.v || r2.v || !w.empty()) FAIL("pop:empty", "popping from an empty view gave a code point");
    }
    // Appending one by one
    if (t.size() < 300)
    {
        string r;
        for (auto c : t) CALL("append", ys::append(r, c).size());
        if (r != s) FAIL("value:append", "appending " + esc32(t) + " gave " + esc(r));
    }
    auto u8 = CALL("to_u8string_view", shim::roundtrip_u8(is));
    if (!u8.ok() || u8.v != s || (u8.v.data() != is.p)) FAIL("value:to_u8string_view", "view changed");
    fw::note(fw::Hash().add(s).h, !s.empty());
}
void prop_case(Src& src)
{
    auto t = gen::text(src);
    judge(t, &src);
    if (src.chance(1, 6)) fw::sample(esc32(t));
    if (src.chance(1, 200))
    {
        u32string l;
        while (l.size() < 70000) l += t.empty() ? U"\xE5xyz" : t;
        auto s = model::enc(l);
        In is(s); In32 il(l);
        auto u = CALL("to_utf32", ys::to_utf32(is));
        if (!u.ok() || u.v != l) FAIL("value:to_utf32", "wrong result for " + esc32(l));
        expect_str("from_utf32", CALL("from_utf32", ys::from_utf32(il)), s, esc32(l));
        EV("long");
    }
    if (src.chance(1, 8))
    {
        uint32_t c = src.chance(1, 2) ? src.u32() : 0x110000u + src.below(0x110000);
        if (src.chance(1, 4)) c = (1u << (21 + src.below(11))) + gen::cp(src);
        if (c > uni::MAX) beyond(c);
    }
}
static uint64_t others() { return 0x1100 + 1; }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
// Texts of all lengths, of characters of one width or all widths; appending to strings of all lengths
static uint64_t lengths(uint32_t k)
{
    uint64_t p = 0;
    p += gen::pairs(k, [&](char32_t x, char32_t y) { judge({x, y}, nullptr); judge({'a', x, y, 0xE5}, nullptr); });
    for (auto n : gen::long_sizes(k))
    {
        for (unsigned kind : {0u, 1u, 2u}) { judge(gen::long_text(n, kind), nullptr); ++p; }
        for (char32_t c : {0x20ACu, 0x1F600u}) if (n % 4 == c % 4) { judge(u32string(n, c), nullptr); judge(u32string(n, 'a') + c, nullptr); judge(c + u32string(n, 'a'), nullptr); p += 3; }
        auto s = model::enc(gen::long_text(n, n % 3));
        In is(s);
        for (char32_t c : {char32_t('z'), U'\u00E5', U'\u20AC', U'\U0001F600'})
        {
            expect_str("append", CALL("append", ys::append(is.sv(), c)), s + model::enc(c), "(" + esc(s) + ", U+" + hexs(c) + ")");
            auto t = s;
            if (n % 2) t.shrink_to_fit();
            auto r = CALL("append", &ys::append(t, c));
            if (!r.ok() || r.v != &t || t != s + model::enc(c)) FAIL("value:append", "append(" + esc(s) + ", U+" + hexs(c) + ") gave " + esc(t));
            ++p;
        }
        auto t = s;
        expect_throw("append", CALL("append", ys::append(t, char32_t(0x110000 + n)).size()), "(" + esc(s) + ", U+" + hexs(uint32_t(0x110000 + n)) + ")");
        if (t != s) FAIL("beyond:append", "a failing append changed a string of " + num(s.size()) + " bytes");
    }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    if (i == 0x1100)
    {
        uint64_t n = 0;
        for (uint32_t c : {0x110000u, 0x110001u, 0x11FFFFu, 0x1FFFFFu, 0x200000u, 0x3FFFFFFu, 0x4000000u, 0x7FFFFFFFu, 0x80000000u, 0x80000041u, 0xFFFFFFFEu, 0xFFFFFFFFu}) beyond(c), ++n;
        for (unsigned b = 21; b < 32; ++b)
            for (uint32_t c : {0u, 0x41u, 0xE5u, 0x20ACu, 0x10000u, 0x10FFFFu}) beyond((1u << b) + c), ++n;
        fw::exhaustive_points(n);
        return;
    }
    for (uint32_t k = 0; k < 256; ++k) one(uint32_t(i * 256 + k));
    fw::exhaustive_points(256);
}
