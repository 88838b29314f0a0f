#include "../common.hpp"
const char* const PROP_ID = "C03";
void prop_init()
{
    uni::load();
    for (auto n : {"well-formed", "malformed", "beyond-10FFFF", "error-at-start", "error-at-end", "error-inside", "call:to_utf32:throw", "call:reverse:throw", "call:to_composed:throw",
                   "call:to_decomposed:throw", "call:to_upper:throw", "call:find_last_of:throw", "documented", "list-iterator", "every-sequence"}) fw::require(n);
}
static void step_check(const char* fn, const fw::Res<shim::Step>& r, bool ok, uint32_t c, size_t from, size_t to, const string& ctx)
{
    if (!r.ok()) { FAIL(string("throw:") + fn, string(fn) + ctx + " threw"); return; }
    if (ok ? (r.v.ch != c || r.v.pos != to) : (r.v.ch != ys::INVALID_CHAR || r.v.pos != from))
        FAIL(string("step:") + fn, string(fn) + ctx + " = U+" + hexs(r.v.ch) + ", position " + std::to_string(r.v.pos) + "; expected "
             + (ok ? "U+" + hexs(c) + ", " + std::to_string(to) : "failure, position unmoved"));
}
static void safe_check(const char* fn, const fw::Res<shim::Step>& r, bool ok, uint32_t c, size_t from, size_t to, size_t after, const string& ctx)
{
    if (ok ? (!r.ok() || !r.v.result || r.v.ch != c || r.v.pos != to) : (!r.threw() || after != from))
        FAIL(string("step:") + fn, string(fn) + ctx + (r.ok() ? " = U+" + hexs(r.v.ch) + ", position " + std::to_string(r.v.pos) : " threw, position " + std::to_string(after))
             + "; expected " + (ok ? "U+" + hexs(c) + ", " + std::to_string(to) : "an exception, position unmoved"));
}
// valid: 1 must return, 0 must throw, -1 either
template <class R> void whole(const char* fn, const R& r, int valid, const string& ctx)
{
    if (valid == 1 && !r.ok()) FAIL(string("threw-on-valid:") + fn, string(fn) + ctx + " threw");
    if (valid == 0 && !r.threw()) FAIL(string("accepted-malformed:") + fn, string(fn) + ctx + " didn't throw");
}
static bool never(char32_t) { return false; }
static void judge(string_view s)
{
    In is(s);
    auto v = model::parse(s);
    bool ok = true, beyond = false, newline = false;
    size_t n_bad = 0;
    for (auto& c : v)
    {
        if (!c.ok) { ok = false; ++n_bad; }
        else if (c.c > uni::MAX) beyond = true;
        if (c.ok && uni::is_newline(c.c)) newline = true;
    }
    auto ctx = "(" + esc(s) + ")";
    if (ok) EV("well-formed"); else EV("malformed");
    if (ok && beyond) EV("beyond-10FFFF");
    if (!ok) { if (!v.front().ok) EV("error-at-start"); else if (n_bad == 1 && !v.back().ok) EV("error-at-end"); else EV("error-inside"); }
    expect_eq("is_valid_utf8", CALL("is_valid_utf8", ys::is_valid_utf8(is)), ok, ctx);
    size_t stride = s.size() > 400 ? s.size() / 60 : 1;
    std::list<char> l;
    if (s.size() <= 24) l.assign(s.begin(), s.end());
    for (size_t i = 0; i < s.size(); i += stride)
    {
        auto c = model::step(s, i);
        step_check("decode_next", CALL("decode_next", shim::decode_next(is, i, s.size())), c.ok, c.c, i, c.end(), at(s, i));
        size_t after = 0;
        auto r1 = CALL("safe_decode_next", shim::safe_decode_next(is, i, s.size(), &after));
        safe_check("safe_decode_next", r1, c.ok, c.c, i, c.end(), after, at(s, i));
        auto e = i + 1;
        auto b = model::step_back(s, e);
        step_check("decode_prev", CALL("decode_prev", shim::decode_prev(is, 0, e)), b.ok, b.c, e, b.off, at(s, e));
        auto r2 = CALL("safe_decode_prev", shim::safe_decode_prev(is, 0, e, &after));
        safe_check("safe_decode_prev", r2, b.ok, b.c, e, b.off, after, at(s, e));
        if (!l.empty())
        {
            EV("list-iterator");
            step_check("decode_next(list)", CALL("decode_next(list)", shim::list_decode_next(l, i)), c.ok, c.c, i, c.end(), at(s, i));
            step_check("decode_prev(list)", CALL("decode_prev(list)", shim::list_decode_prev(l, e)), b.ok, b.c, e, b.off, at(s, e));
            step_check("decode_next(pointer)", CALL("decode_next(pointer)", shim::ptr_decode_next(is, i)), c.ok, c.c, i, c.end(), at(s, i));
            step_check("decode_prev(pointer)", CALL("decode_prev(pointer)", shim::ptr_decode_prev(is, e)), b.ok, b.c, e, b.off, at(s, e));
        }
    }
    auto r3 = CALL("decode_next", shim::decode_next(is, s.size(), s.size()));
    step_check("decode_next", r3, false, 0, s.size(), 0, at(s, s.size()));
    auto r4 = CALL("decode_prev", shim::decode_prev(is, 0, 0));
    step_check("decode_prev", r4, false, 0, 0, 0, at(s, 0));
    int w = !ok ? 0 : beyond ? -1 : 1;
    int d = ok; // plain decoding has no opinion on values above 10FFFF
    auto u32 = CALL("to_utf32", ys::to_utf32(is));
    whole("to_utf32", u32, w, ctx);
    if (ok && u32.ok())
    {
        u32string want;
        for (auto& c : v) want.push_back(c.c);
        if (u32.v != want) FAIL("value:to_utf32", "to_utf32" + ctx + " = " + esc32(u32.v) + ", expected " + esc32(want));
    }
    whole("to_upper", CALL("to_upper", ys::to_upper(is.sv())), w, ctx);
    whole("to_lower", CALL("to_lower", ys::to_lower(is.sv())), w, ctx);
    whole("to_title", CALL("to_title", ys::to_title(is.sv())), w, ctx);
    whole("to_composed", CALL("to_composed", ys::to_composed(is)), w, ctx);
    whole("to_decomposed", CALL("to_decomposed", ys::to_decomposed(is)), w, ctx);
    whole("count_chars", CALL("count_chars", ys::count_chars(is)), w == 1 ? 1 : w, ctx);
    whole("reverse", CALL("reverse", ys::reverse(is)), w, ctx);
    (void)d;
    auto absent = char32_t(0x10FFF7);
    if (s.find(model::enc(absent)) == s.npos)
    {
        whole("contains", CALL("contains", ys::contains(is.sv(), absent)), w, ctx);
        In32 list(u32string(1, absent));
        whole("find_first_of", CALL("find_first_of", ys::find_first_of(is, list)), w, ctx);
        whole("find_last_of", CALL("find_last_of", ys::find_last_of(is, list)), w, ctx);
        whole("ci::find_first_of", CALL("ci::find_first_of", ci::find_first_of(is, list)), w, ctx);
        whole("ci::find_last_of", CALL("ci::find_last_of", ci::find_last_of(is, list)), w, ctx);
        whole("trim", CALL("trim_where", shim::trim_where(is, [](char32_t) { return true; })), w, ctx);
    }
    whole("find_first_where", CALL("find_first_where", shim::find_first_where(is, never, 0)), w, ctx);
    whole("find_last_where", CALL("find_last_where", shim::find_last_where0(is, never)), w, ctx);
    if (!newline)
    {
        whole("find_first_newline", CALL("find_first_newline", ys::find_first_newline(is)), w, ctx);
        whole("find_last_newline", CALL("find_last_newline", ys::find_last_newline(is)), w, ctx);
    }
    // Functions documented to throw, on text where they reach an error.
    if (!ok)
    {
        EV("documented");
        auto doc = [&](const char* fn, const auto& r, const string& c) { if (!r.threw()) FAIL(string("doc-throw:") + fn, string(fn) + c + " didn't throw"); };
        doc("count_codepoints", CALL("count_codepoints", ys::count_codepoints(is)), ctx);
        doc("starts_with", CALL("starts_with", ys::starts_with(is, is)), ctx + " with itself");
        doc("insert_codepoint", CALL("insert_codepoint", ys::insert_codepoint(is, ptrdiff_t(v.size()), 'x')), ctx);
        doc("insert_codepoints", CALL("insert_codepoints", ys::insert_codepoints(is, ptrdiff_t(v.size()), "x")), ctx);
        doc("insert_char", CALL("insert_char", ys::insert_char(is, ptrdiff_t(v.size()), 'x')), ctx);
        doc("insert_chars", CALL("insert_chars", ys::insert_chars(is, ptrdiff_t(v.size()), "x")), ctx);
        doc("get_char_substring", CALL("get_char_substring", ys::get_char_substring(is, ptrdiff_t(v.size()))), ctx);
        doc("ci::compare", CALL("ci::compare", ci::compare(is, is)), ctx);
        doc("ci::equal", CALL("ci::equal", ci::equal(is, is)), ctx);
        doc("ci::less", CALL("ci::less", ci::less(is, is)), ctx);
        doc("ci::starts_with", CALL("ci::starts_with", ci::starts_with(is, is)), ctx);
        string_view u = is;
        auto r = CALL("unescape_next", [&] { while (ys::unescape_next(u)) {} return 0; }());
        doc("unescape_next", r, ctx);
    }
    fw::note(fw::Hash().add(s).h, !s.empty());
}
// Single steps over a sequence, in both directions
static void sequence(const string& s)
{
    static char* const keep[] = {new char[2], new char[3], new char[4]};
    auto* p = keep[s.size() - 2];
    memcpy(p, s.data(), s.size());
    string_view is(p, s.size());
    auto c = model::step(s, 0), b = model::step_back(s, s.size());
    auto ctx = [&] { return at(s, 0); };
    auto n = s.size();
    auto bad = [&](const fw::Res<shim::Step>& r, bool ok, uint32_t ch, size_t from, size_t to) { return !r.ok() || (ok ? r.v.ch != ch || r.v.pos != to : r.v.ch != ys::INVALID_CHAR || r.v.pos != from); };
    auto r1 = CALL("decode_next", shim::decode_next(is, 0, n));
    if (bad(r1, c.ok, c.c, 0, c.end())) step_check("decode_next", r1, c.ok, c.c, 0, c.end(), ctx());
    auto r2 = CALL("decode_prev", shim::decode_prev(is, 0, n));
    if (bad(r2, b.ok, b.c, n, b.off)) step_check("decode_prev", r2, b.ok, b.c, n, b.off, ctx() + " backwards");
    size_t after = 0;
    auto r3 = CALL("safe_decode_next", shim::safe_decode_next(is, 0, n, &after));
    if (c.ok != r3.ok() || (c.ok && (r3.v.ch != c.c || r3.v.pos != c.end()))) safe_check("safe_decode_next", r3, c.ok, c.c, 0, c.end(), after, ctx());
    auto r4 = CALL("safe_decode_prev", shim::safe_decode_prev(is, 0, n, &after));
    if (b.ok != r4.ok() || (b.ok && (r4.v.ch != b.c || r4.v.pos != b.off))) safe_check("safe_decode_prev", r4, b.ok, b.c, n, b.off, after, ctx() + " backwards");
    auto valid = c.ok && c.end() == n;
    auto r5 = CALL("is_valid_utf8", ys::is_valid_utf8(is));
    if (!r5.ok() || r5.v != valid) FAIL("value:is_valid_utf8", "is_valid_utf8(" + esc(s) + "): wrong result");
    EV("every-sequence");
}
void prop_case(Src& src)
{
    auto s = gen::bytes(src);
    if (src.chance(1, 3))
    {
        // One error somewhere in well-formed text.
        s = gen::utf8(src);
        static const char* bad[] = {"\x80", "\xBF", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xF8", "\xFF", "\xFE\x80\x80\x80\x80\x80", "\xC3\xC3", "\xE2", "\xF0\x9F", "\xF7", "\x80\x80\x80\x80\x80"};
        auto v = model::parse(s);
        s.insert(gen::boundary(src, v, s.size()), src.pick(bad));
    }
    judge(s);
    if (src.chance(1, 6)) fw::sample(esc(s, 80));
}
// Every string of up to four bytes over representatives of all byte classes,
// alone and between multi-byte neighbours.
static const unsigned char CLS[] = {0x00, 0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xC3, 0xDF, 0xE0, 0xEF, 0xF0, 0xF7, 0xF8, 0xFF};
constexpr uint64_t K = sizeof(CLS);
static uint64_t others() { return 1 + K + K * K + (fw::tier_thorough() ? K * K * K : K * K); }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
// One error after, before and within well-formed texts of all lengths; runs of errors
static uint64_t lengths(uint32_t k)
{
    static const char* bad[] = {"\x80", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xF8", "\xFF", "\xFE\x80\x80\x80\x80\x80", "\xF0\x9F", "\xE2"};
    uint64_t p = 0;
    for (auto n : gen::long_sizes(k))
    {
        string b = bad[n % std::size(bad)];
        auto t = gen::long_text(n, unsigned(n / 2) % 3);
        auto s = model::enc(t), half = model::enc(t.substr(0, n / 2));
        if (n < 4000 || n % 4 == 0)
        {
            judge(s);
            judge(s + b);
            judge(b + s);
            judge(half + b + s.substr(half.size()));
        }
        string run;
        for (size_t i = 0; i < n; ++i) run += b;
        judge(run);
        judge(half + "\xF0\x9F\x98");
        p += 6;
    }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    std::vector<string> todo;
    auto add = [&](std::initializer_list<uint64_t> v) { string s; for (auto x : v) s += char(CLS[x]); todo.push_back(s); };
    auto base = 1 + K + K * K;
    if (i == 0) todo.push_back("");
    else if (i <= K) for (uint64_t a = 0; a < K; ++a) add({i - 1, a});
    else if (i < base) for (uint64_t a = 0; a < K; ++a) add({(i - 1 - K) / K, (i - 1 - K) % K, a});
    else if (!fw::tier_thorough())
        { for (uint64_t a = 0; a < K; ++a) for (uint64_t b = 0; b < K; ++b) add({(i - base) / K, (i - base) % K, a, b}); }
    else
        for (uint64_t a = 0; a < K; ++a) for (uint64_t b = 0; b < K; ++b) { auto j = i - base; add({j / K / K, j / K % K, j % K, a, b}); add({j / K / K, j / K % K, j % K, a}); }
    if (i > 0 && i <= K) { string s; s += char(CLS[i - 1]); todo.push_back(s); }
    for (auto& s : todo)
    {
        judge(s);
        if (s.size() <= 3) { judge("\xC3\xA5" + s); judge(s + "\xE2\x82\xAC"); judge("\xF0\x9F\x98\x80" + s + "z"); }
        fw::exhaustive_points(s.size() <= 3 ? 4 : 1);
    }
    // Every sequence of a lead byte and its continuation bytes
    if (i && i <= 32 + 16 + 8)
    {
        auto lead = i <= 32 ? 0xBF + i : i <= 48 ? 0xE0 + i - 33 : 0xF0 + i - 49;
        auto len = i <= 32 ? 2 : i <= 48 ? 3 : 4;
        for (uint32_t x = 0; x < 1u << 6 * (len - 1); ++x)
        {
            string s(1, char(lead));
            for (int j = len - 1; j--;) s += char(0x80 | (x >> 6 * j & 63));
            sequence(s);
        }
        fw::exhaustive_points(1u << 6 * (len - 1));
    }
    // All single bytes
    if (i == 0) for (int b = 0; b < 256; ++b) { judge(string(1, char(b))); judge("a" + string(1, char(b)) + "\x80"); fw::exhaustive_points(2); }
}
