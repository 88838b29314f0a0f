#include <memory>
#include "../esc_model.hpp"
const char* const PROP_ID = "C23";
void prop_init()
{
    uni::load();
    for (auto n : {"simple", "literal", "hex", "long-hex", "u", "U", "octal", "pair", "lone-high", "lone-low", "invalid", "truncated-at-end", "too-large", "beyond-32-bits", "copied-bytes", "no-escape", "invalid-after-valid",
                   "offset-inside-escape", "call:unescape(string):throw", "call:unescape(buffer):throw", "call:find_first_escaped_char:throw", "call:has_escaped_chars:throw"}) fw::require(n);
}
static void judge(string_view s)
{
    // The expected result
    string e;
    bool bad = false, large = false, seen = false;
    for (size_t i = 0; i < s.size();)
    {
        if (s[i] != '\\') { e += s[i++]; EV("copied-bytes"); continue; }
        auto q = escm::parse(s, i, true, false);
        if (!q.ok)
        {
            bad = true;
            EV("invalid");
            if (seen) EV("invalid-after-valid");
            if (i + 1 == s.size()) EV("truncated-at-end");
            break;
        }
        seen = true;
        if (q.value > uni::MAX) { large = true; EV("too-large"); if (q.value >> 32) EV("beyond-32-bits"); }
        else e += model::enc(uint32_t(q.value));
        switch (s[i + 1])
        {
        case 'x': case 'X': EV("hex"); if (q.len > 10) EV("long-hex"); break;
        case 'u': EV("u"); if (q.len == 12) EV("pair"); else if (q.value >= 0xD800 && q.value < 0xDC00) EV("lone-high"); else if (q.value >= 0xDC00 && q.value < 0xE000) EV("lone-low"); break;
        case 'U': EV("U"); break;
        case 'a': case 'b': case 'f': case 'n': case 'r': case 't': case 'v': EV("simple"); break;
        default: if (s[i + 1] >= '0' && s[i + 1] <= '7') EV("octal"); else EV("literal");
        }
        i += q.len;
    }
    if (!seen && !bad) EV("no-escape");
    In is(s);
    auto ctx = "(" + esc(s) + ")";
    auto r = CALL("unescape(string)", ys::unescape(string(is.sv())));
    // The buffer is exactly as large as the text, and has poisoned surroundings.
    string_view before = s;
    auto buffer = std::unique_ptr<char[]>(new char[s.size()]);
    memcpy(buffer.get(), before.data(), s.size());
    auto b = CALL("unescape(buffer)", ys::unescape(buffer.get(), s.size()));
    if (r.kind != b.kind) FAIL("variants", "unescape" + ctx + ": one variant throws and the other doesn't");
    if (bad)
    {
        if (r.ok()) FAIL("no-throw:unescape", "unescape" + ctx + " = " + esc(r.v) + ", expected an exception");
    }
    else if (!r.ok())
    {
        if (!large) FAIL("throw:unescape", "unescape" + ctx + " threw, expected " + esc(e));
    }
    else if (r.v != e) FAIL("value:unescape", "unescape" + ctx + " = " + esc(r.v) + ", expected " + esc(e));
    if (b.ok())
    {
        if (b.v > s.size()) FAIL("length:unescape", "unescape" + ctx + " returned the length " + std::to_string(b.v));
        else if (r.ok() && string_view(buffer.get(), b.v) != r.v) FAIL("variants", "unescape" + ctx + " in place = " + esc(string_view(buffer.get(), b.v)) + ", and " + esc(r.v));
    }
    // Searching
    auto from = [&](size_t off, bool with_default)
    {
        auto i = s.find('\\', off);
        auto q = i == s.npos ? escm::Seq{} : escm::parse(s, i, false, false);
        auto c = at(s, off);
        auto f = CALL("find_first_escaped_char", ys::find_first_escaped_char(is, off));
        if (i == s.npos) expect_range("find_first_escaped_char", f, {0, 0}, c);
        else if (!q.ok) expect_throw("find_first_escaped_char", f, c);
        else expect_range("find_first_escaped_char", f, {i, q.len}, c);
        if (off && s[off - 1] == '\\') EV("offset-inside-escape");
        if (!with_default) return;
        auto g = CALL("find_first_escaped_char", ys::find_first_escaped_char(is));
        auto h = CALL("has_escaped_chars", ys::has_escaped_chars(is));
        if (i == s.npos) { expect_range("find_first_escaped_char", g, {0, 0}, c); expect_eq("has_escaped_chars", h, false, c); }
        else if (!q.ok) { expect_throw("find_first_escaped_char", g, c); expect_throw("has_escaped_chars", h, c); }
        else { expect_range("find_first_escaped_char", g, {i, q.len}, c); expect_eq("has_escaped_chars", h, true, c); }
    };
    for (size_t i = 0; i <= s.size() && i < 24; ++i) from(i, i == 0);
    from(s.size(), false);
    fw::note(fw::Hash().add(s).h, seen || bad);
}
void prop_case(Src& src)
{
    auto s = escm::text(src);
    judge(s);
    if (src.chance(1, 8)) judge(gen::bytes(src));
    // Every prefix of it too: all truncations must be noticed.
    if (src.chance(1, 4)) for (size_t i = 0; i < s.size() && i < 30; ++i) judge(string_view(s).substr(0, i));
    // ... and a repeated one
    if (src.chance(1, 60)) { string u; for (auto k = src.below(300); k; --k) u += s; judge(u.substr(0, 8000)); }
    if (src.chance(1, 6)) fw::sample(esc(s, 80));
}
// All of backslash + two bytes (exhaustive), and all \u pairs' boundaries.
// Each kind of sequence repeated up to 300 times, before and after others.
uint64_t prop_exhaustive_count() { return 256 + 64 + 300 + gen::LONG_SWEEPS; }
static uint64_t repeated(size_t n)
{
    static const char* units[] = {"\\\\", "\\n", "\\\"", "\\x41", "\\x0", "\\X41g", "\\u00e5", "\\u20AC", "\\uD83D\\uDE00", "\\uD83D", "\\uDE00", "\\U0001F600", "\\101", "\\7", "\\0", "\\\n", "a", "a\\n", "\xC3\xA5\\t", "\xC3\xA5", "0", "F",
                                  "abcdefg\\n", "abcdefghijklmn\\\\", "\\?"};
    static const char* ends[] = {"", "\\", "n", "\\n", "\\u004", "\\uD83D\\uDE00", "\xE2\x82\xAC", "\\x41"};
    uint64_t k = 0;
    for (auto u : units)
    {
        string r;
        for (size_t j = 0; j < n; ++j) r += u;
        if (r.size() > 1500 && n % 16) continue;
        for (auto e : ends) { judge(r + e); ++k; }
        for (auto e : {"\\x", "\\u", "\\U", "\\", "x\\n"}) { judge(e + r); ++k; }
    }
    return k;
}
// Runs of all lengths
static uint64_t lengths(uint32_t which)
{
    uint64_t k = 0;
    for (auto n : gen::long_sizes(which))
    {
        string cont, hex, mix;
        for (size_t j = 0; j < n; ++j) { cont += "\\\n"; hex += j % 3 ? "0" : "\\x4"; mix += j * j % 7 == 2 ? "\\n" : j * j % 11 == 3 ? "\\\n" : string(1, char('a' + j % 26)); }
        auto plain = model::enc(gen::long_text(n, 2 * (n % 2)));
        for (auto e : {"", "x", "\\n", "\\", "\xE2\x82\xAC", "\\u20AC"}) { judge(cont + e); ++k; }
        judge("ab" + cont + "c"); judge("\\t" + cont + "\\U0001F600");
        for (auto e : {"", "\\n", "\\q", "\\x4"}) { judge("\\\\" + plain + e); judge(e + plain); k += 2; }
        judge(plain + "\\n" + plain);
        judge(mix); judge(mix + "\\u12"); judge("\\x41" + mix);
        string zeros(n, '0');
        for (auto e : {"\\x", "\\u", "\\U", "\\", "\\1"}) { judge(e + zeros); judge(e + zeros + "g"); k += 2; }
        k += 6;
    }
    return k;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= 256 + 64 + 300) { fw::exhaustive_points(lengths(uint32_t(i - 620))); return; }
    if (i >= 256 + 64) { fw::exhaustive_points(repeated(size_t(i - 319))); return; }
    uint64_t n = 0;
    if (i < 256)
    {
        string s = "\\";
        s += char(i);
        judge(s); ++n;
        for (int k = 0; k < 256; ++k) { judge(s + char(k)); ++n; }
        for (auto t : {"00", "4g", "41", "D83D", "0041x", "00000041", "0010FFFF1", "00110000", "777", "400"}) { judge(s + t); judge(s + t + "\\" + char(i) + t); judge("\\" + s + t); n += 3; }
    }
    else
    {
        // 1/64 of all four digit codes, alone, and in pairs with the boundaries
        for (uint32_t c = uint32_t(i - 256) * 1024; c < (i - 255) * 1024; ++c)
        {
            char b[40];
            snprintf(b, sizeof b, "\\u%04x", c);
            judge(b); ++n;
            if ((c >> 11) == 0xD800 >> 11)
                for (auto t : {"\\uD800", "\\uDBFF", "\\uDC00", "\\uDFFF", "\\uE000", "\\u0041", "\\xDC00", "\\n", "x", "\\uDC0"}) { judge(string(b) + t); judge(t + string(b)); n += 2; }
        }
    }
    fw::exhaustive_points(n);
}
