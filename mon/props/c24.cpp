#include "../esc_model.hpp"
const char* const PROP_ID = "C24";
void prop_init()
{
    uni::load();
    for (auto n : {"simple", "literal", "literal-non-ascii", "hex", "hex-8", "u", "U", "octal", "pair", "lone-high", "plain", "plain-non-ascii", "line-continuation", "only-line-continuations", "invalid-escape", "invalid-utf8",
                   "lone-backslash", "walked-to-end", "too-large", "call:unescape_next:throw"}) fw::require(n);
}
static void judge(string_view s, int max_steps = 1200)
{
    In is(s);
    string_view rest = is;
    size_t pos = 0;
    fw::Hash h;
    for (int steps = 0; steps < max_steps; ++steps)
    {
        // What is expected of this call
        size_t p = pos;
        while (s.size() - p > 1 && s[p] == '\\' && s[p + 1] == '\n') p += 2;
        bool cont = p != pos;
        if (cont) EV("line-continuation");
        size_t end = p;
        uint64_t value = 0;
        bool ok = true, escaped = false;
        if (p == s.size()) { if (cont) EV("only-line-continuations"); }
        else if (s[p] != '\\')
        {
            auto c = model::step(s, p);
            ok = c.ok; value = c.c; end = c.end();
            if (!ok) EV("invalid-utf8"); else if (c.len == 1) EV("plain"); else EV("plain-non-ascii");
        }
        else if (p + 1 == s.size()) { ok = false; EV("lone-backslash"); }
        else
        {
            escaped = true;
            if (uint8_t(s[p + 1]) >= 0x80)
            {
                auto c = model::step(s, p + 1);
                ok = c.ok; value = c.c; end = c.end();
                if (ok) EV("literal-non-ascii");
            }
            else
            {
                auto q = escm::parse(s, p, true, true);
                ok = q.ok; value = q.value; end = p + q.len;
                if (ok)
                    switch (s[p + 1])
                    {
                    case 'x': case 'X': EV("hex"); if (q.len == 10) EV("hex-8"); break;
                    case 'u': EV("u"); if (q.len == 12) EV("pair"); else if (value >= 0xD800 && value < 0xDC00) EV("lone-high"); break;
                    case 'U': EV("U"); break;
                    case 'a': case 'b': case 'f': case 'n': case 'r': case 't': case 'v': EV("simple"); break;
                    default: if (s[p + 1] >= '0' && s[p + 1] <= '7') EV("octal"); else EV("literal");
                    }
            }
            if (!ok) EV("invalid-escape");
        }
        bool large = ok && value > uni::MAX;
        if (large) EV("too-large");

        auto ctx = [&, from = pos] { return "(" + esc(s.substr(from)) + ")"; };
        // Without the flag (on a copy of the view) and with it, set to either value before the call
        auto copy = rest;
        auto r0 = CALL("unescape_next", ys::unescape_next(copy));
        bool flag = steps & 1, before = flag;
        auto r = CALL("unescape_next", ys::unescape_next(rest, &flag));
        (void)before;
        if (r.kind != r0.kind || r.v != r0.v || copy.data() != rest.data() || copy.size() != rest.size())
            FAIL("flag-matters", "unescape_next" + ctx() + " behaves differently without the flag");
        auto off = is.offset_of("unescape_next", rest);
        auto now = rest.empty() ? s.size() : off;
        if (rest.size() != s.size() - now) { FAIL("view-end", "unescape_next" + ctx() + " moved the end of the view"); return; }
        if (r.threw())
        {
            if (ok && !large) FAIL("throw", "unescape_next" + ctx() + " threw, expected U+" + hexs(uint32_t(value)));
            // The view starts at the offending character; skipped line continuations are no part of it.
            if (now != p) FAIL("throw-position", "unescape_next" + ctx() + " threw and left the view at offset " + std::to_string(now - pos) + ", expected " + std::to_string(p - pos));
            break;
        }
        if (!ok) { FAIL("no-throw", "unescape_next" + ctx() + " = " + (r.v ? "U+" + hexs(*r.v) : string("nothing")) + ", expected an exception"); return; }
        if (p == s.size())
        {
            if (r.v) FAIL("end", "unescape_next" + ctx() + " = U+" + hexs(*r.v) + ", expected nothing");
            if (flag) FAIL("end-flag", "unescape_next" + ctx() + " set the flag at the end");
            if (now != s.size()) FAIL("end-position", "unescape_next" + ctx() + " left the view at " + std::to_string(now - pos));
            EV("walked-to-end");
            break;
        }
        if (!r.v) { FAIL("nothing", "unescape_next" + ctx() + " returned nothing, expected U+" + hexs(uint32_t(value))); return; }
        if (*r.v != uint32_t(value)) { FAIL("value", "unescape_next" + ctx() + " = U+" + hexs(*r.v) + ", expected U+" + hexs(uint32_t(value))); return; }
        if (flag != escaped) FAIL("flag", "unescape_next" + ctx() + (escaped ? " didn't set the flag" : " set the flag"));
        if (now != end) { FAIL("position", "unescape_next" + ctx() + " took " + std::to_string(now - pos) + " bytes, expected " + std::to_string(end - pos)); return; }
        pos = end;
    }
    fw::note(fw::Hash().add(s).h, !s.empty());
}
void prop_case(Src& src)
{
    auto s = escm::text(src);
    if (src.chance(1, 4)) { for (auto k = 1 + src.below(3); k; --k) s.insert(src.chance(1, 2) ? s.size() : src.below(uint32_t(s.size()) + 1), "\\\n"); }
    judge(s);
    if (src.chance(1, 6)) judge(gen::bytes(src));
    // From everywhere, and truncated everywhere
    if (src.chance(1, 4)) for (size_t i = 0; i < s.size() && i < 30; ++i) { judge(string_view(s).substr(0, i)); judge(string_view(s).substr(i)); }
    if (src.chance(1, 6)) fw::sample(esc(s, 80));
}
// Each kind of sequence repeated up to 300 times, before and after others.
uint64_t prop_exhaustive_count() { return 256 + 64 + 300 + gen::LONG_SWEEPS; }
static uint64_t repeated(size_t n)
{
    static const char* units[] = {"\\\\", "\\n", "\\\"", "\\x41", "\\x0", "\\X41g", "\\u00e5", "\\u20AC", "\\uD83D\\uDE00", "\\uD83D", "\\uDE00", "\\U0001F600", "\\101", "\\7", "\\0", "\\\n", "a", "a\\n", "\xC3\xA5\\t", "\xC3\xA5", "0", "F",
                                  "abcdefg\\n", "abcdefghijklmn\\\\", "\\?"};
    static const char* ends[] = {"", "\\", "n", "\\n", "\\u004", "\\uD83D\\uDE00", "\xE2\x82\xAC", "\\x41"};
    uint64_t k = 0;
    if (n > 40 && (n + 1) % 8 > 2 && !fw::tier_thorough()) return 0;
    for (auto u : units)
    {
        string r;
        for (size_t j = 0; j < n; ++j) r += u;
        if (r.size() > 1500 && n % 16) continue;
        for (auto e : ends) { judge(r + e); ++k; }
        for (auto e : {"\\x", "\\u", "\\U", "\\", "x\\n"}) { judge(e + r); ++k; }
    }
    return k;
}
// Runs of all lengths
static uint64_t lengths(uint32_t which)
{
    uint64_t k = 0;
    for (auto n : gen::long_sizes(which))
    {
        string cont, hex, mix;
        for (size_t j = 0; j < n; ++j) { cont += "\\\n"; hex += j % 3 ? "0" : "\\x4"; mix += j * j % 7 == 2 ? "\\n" : j * j % 11 == 3 ? "\\\n" : string(1, char('a' + j % 26)); }
        auto plain = model::enc(gen::long_text(n, 2 * (n % 2)));
        for (auto e : {"", "x", "\\n", "\\", "\xE2\x82\xAC", "\\u20AC"}) { judge(cont + e); ++k; }
        judge("ab" + cont + "c"); judge("\\t" + cont + "\\U0001F600");
        for (auto e : {"", "\\n", "\\q", "\\x4"}) { judge("\\\\" + plain + e, 3000); judge(e + plain, 3000); k += 2; }
        judge(plain + "\\n" + plain);
        judge(mix, 3000); judge(mix + "\\u12", 3000); judge("\\x41" + mix, 3000);
        string zeros(n, '0');
        for (auto e : {"\\x", "\\u", "\\U", "\\", "\\1"}) { judge(e + zeros); judge(e + zeros + "g"); k += 2; }
        k += 6;
    }
    return k;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= 256 + 64 + 300) { fw::exhaustive_points(lengths(uint32_t(i - 620))); return; }
    if (i >= 256 + 64) { fw::exhaustive_points(repeated(size_t(i - 319))); return; }
    uint64_t n = 0;
    if (i < 256)
    {
        string s = "\\";
        s += char(i);
        judge(s); ++n;
        for (int k = 0; k < 256; ++k) { judge(s + char(k)); judge(string{char(i), char(k)}); n += 2; }
        for (auto t : {"0", "4g", "41", "D83D", "0041x", "00000041", "0010FFFF1", "00110000", "FFFFFFFFF", "777", "400", "\n", "\\\n", "\x80", "\xA5x"}) { judge(s + t); judge(s + t + "\\" + char(i) + t); judge("\\\n" + s + t); n += 3; }
    }
    else
        for (uint32_t c = uint32_t(i - 256) * 1024; c < (i - 255) * 1024; ++c)
        {
            char b[40];
            snprintf(b, sizeof b, "\\u%04X", c);
            judge(b); ++n;
            if ((c >> 11) == 0xD800 >> 11)
                for (auto t : {"\\uD800", "\\uDBFF", "\\uDC00", "\\uDFFF", "\\uE000", "\\u0041", "\\xDC00", "\\n", "x", "\\uDC0", "\\u", "\\"}) { judge(string(b) + t); ++n; }
        }
    fw::exhaustive_points(n);
}
