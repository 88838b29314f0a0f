#include "../common.hpp"
const char* const PROP_ID = "C22";
void prop_init()
{
    uni::load();
    for (auto n : {"short-escape", "hex-escape", "quote", "backslash", "nothing-to-escape", "empty", "high-bytes", "nul", "adjacent-escapes", "escapable-at-start", "escapable-at-end", "none-after-offset", "looks-escaped"}) fw::require(n);
}
static bool special(char c) { return uint8_t(c) < 32 || c == '"' || c == '\\'; }
// Reads the body of a JSON string (RFC 8259): false if it isn't one.
static bool read_json(string_view s, string& out)
{
    for (size_t i = 0; i < s.size(); ++i)
    {
        auto c = uint8_t(s[i]);
        if (c < 32 || c == '"') return false;
        if (c != '\\') { out += s[i]; continue; }
        if (++i == s.size()) return false;
        switch (s[i])
        {
        case '"': case '\\': case '/': out += s[i]; break;
        case 'b': out += '\b'; break;
        case 'f': out += '\f'; break;
        case 'n': out += '\n'; break;
        case 'r': out += '\r'; break;
        case 't': out += '\t'; break;
        case 'u':
        {
            if (s.size() - i < 5) return false;
            uint32_t v = 0;
            for (int k = 1; k <= 4; ++k)
            {
                auto h = s[i + k];
                int d = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1;
                if (d < 0) return false;
                v = v << 4 | uint32_t(d);
            }
            out += model::enc(v);
            i += 4;
            break;
        }
        default: return false;
        }
    }
    return true;
}
static string expected(string_view s)
{
    string r;
    for (auto ch : s)
    {
        auto c = uint8_t(ch);
        if (c == '"' || c == '\\') { r += '\\'; r += ch; }
        else if (c >= 32) r += ch;
        else if (auto p = strchr("\bb\ff\nn\rr\tt", ch); ch && p) { r += '\\'; r += p[1]; }
        else { r += "\\u00"; r += char('0' + (c >> 4)); r += "0123456789ABCDEF"[c & 15]; }
    }
    return r;
}
static bool same_but_hex_case(string_view a, string_view b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i] != b[i] && !(a[i] >= 'a' && a[i] <= 'f' && a[i] - 32 == b[i] && i >= 5 && (a.substr(i - 5, 4) == "\\u00" || a.substr(i - 4, 4) == "\\u00"))) return false;
    return true;
}
static void judge(string_view s, bool all_offsets)
{
    In is(s);
    auto ctx = "(" + esc(s) + ")";
    auto r = CALL("escape_json", ys::escape_json(is));
    auto e = expected(s);
    if (!r.ok()) FAIL("throw:escape_json", "escape_json" + ctx + " threw");
    else
    {
        if (r.v != e && !same_but_hex_case(r.v, e)) FAIL("value:escape_json", "escape_json" + ctx + " = " + esc(r.v) + ", expected " + esc(e));
        string back;
        if (!read_json(r.v, back)) FAIL("json:escape_json", "escape_json" + ctx + " = " + esc(r.v) + " is no JSON string");
        else if (back != s) FAIL("json-value:escape_json", "escape_json" + ctx + " = " + esc(r.v) + " reads as " + esc(back));
        auto u = CALL("unescape", ys::unescape(r.v));
        if (!u.ok() || u.v != s) FAIL("roundtrip:unescape", "unescape(escape_json" + ctx + ") = " + (u.ok() ? esc(u.v) : string("throw")));
    }
    size_t first = 0;
    while (first < s.size() && !special(s[first])) ++first;
    expect_eq("has_escapable_chars", CALL("has_escapable_chars", ys::has_escapable_chars(is)), first < s.size(), ctx);
    auto from = [&](size_t off)
    {
        auto i = off;
        while (i < s.size() && !special(s[i])) ++i;
        expect_range("find_first_escapable_char", CALL("find_first_escapable_char", ys::find_first_escapable_char(is, off)), i < s.size() ? Range{i, 1} : Range{0, 0}, at(s, off));
        if (i == s.size()) EV("none-after-offset");
    };
    if (all_offsets) for (size_t i = 0; i <= s.size(); ++i) from(i);
    else { from(0); from(s.size() / 2); from(first); from(first < s.size() ? first + 1 : first); from(s.size()); }
    expect_range("find_first_escapable_char", CALL("find_first_escapable_char", ys::find_first_escapable_char(is)), first < s.size() ? Range{first, 1} : Range{0, 0}, ctx);
    for (size_t i = 0; i < s.size(); ++i)
    {
        auto c = s[i];
        if (c == '"') EV("quote");
        else if (c == '\\') { EV("backslash"); if (i + 1 < s.size() && strchr("nutx", s[i + 1])) EV("looks-escaped"); }
        else if (c == 0) EV("nul");
        else if (uint8_t(c) >= 0x80) EV("high-bytes");
        if (special(c)) { if (i == 0) EV("escapable-at-start"); if (i + 1 == s.size()) EV("escapable-at-end"); else if (special(s[i + 1])) EV("adjacent-escapes"); }
    }
    if (e.find("\\u00") != e.npos) EV("hex-escape");
    if (s.find('\n') != s.npos) EV("short-escape");
    if (first == s.size()) EV("nothing-to-escape");
    if (s.empty()) EV("empty");
    fw::note(fw::Hash().add(s).h, first < s.size());
}
void prop_case(Src& src)
{
    string s = src.chance(1, 2) ? gen::bytes(src) : string();
    static const char* pieces[] = {"\\", "\"", "\n", "\r", "\t", "\b", "\f", "\v", "/", "\\n", "\\u", "\\u0041", "\\x", "u", "n", "0", "\x7f", "abc", "\xC3\xA5", "\xE2\x80\xA8"};
    for (auto k = src.below(10); k; --k)
    {
        string p = src.chance(1, 2) ? string(src.pick(pieces)) : string(1, src.chance(1, 2) ? char(src.below(32)) : char(src.u8()));
        s.insert(src.chance(1, 2) ? s.size() : src.below(uint32_t(s.size()) + 1), p);
    }
    if (s.size() < 2000 && src.chance(1, 100)) { auto u = s; for (auto k = src.below(20); k; --k) s += u; }
    judge(s, s.size() < 40);
    if (src.chance(1, 6)) fw::sample(esc(s, 80));
}
// All strings of one and two bytes; all pairs around escapable characters; runs of each byte, and of pairs, of all lengths up to 300.
uint64_t prop_exhaustive_count() { return 256 + 300 + gen::LONG_SWEEPS; }
void prop_exhaustive(uint64_t i)
{
    if (i >= 256 + 300)
    {
        // All lengths
        uint64_t k = 0;
        for (auto n : gen::long_sizes(uint32_t(i - 556)))
        {
            for (auto u : {"\n", "\1", "\"", "\x1F"}) if (n % 4 == 0 || u[0] == '\1') { string r(n, u[0]); judge(r, false); judge("ab" + r, false); judge(r + "\xC3\xA5", false); k += 3; }
            auto plain = model::enc(gen::long_text(n, 2 * (n % 2)));
            for (auto u : {"", "\\", "\"\n"}) { judge(plain + u, false); judge(u + plain, false); judge(plain + u + plain, false); k += 3; }
            string mix;
            for (size_t j = 0; j < n; ++j) mix += j * j % 7 == 2 ? "\n\"\\\2"[j % 4] : char('a' + j % 26);
            judge(mix, false); ++k;
        }
        fw::exhaustive_points(k);
        return;
    }
    if (i >= 256)
    {
        auto n = size_t(i - 255);
        uint64_t k = 0;
        for (int c = 0; c < 256; ++c)
            if (special(char(c)) || c % 16 == 15 || c == '/' || c == 'n' || c == 'u')
            {
                string r(n, char(c));
                judge(r, n < 40); judge("a" + r + "n", false); judge(r + "u0041", false); judge("\xC3\xA5\"" + r + "\"", false);
                k += 4;
            }
        static const char* pairs[] = {"\\\"", "\\n", "\n\r", "\r\n", "\\\n", "a\\", "a\"", "\1\2", "\t\xE2\x82\xAC", "abcdefg\n", "abcdefghijklmno\\", "\x7F\x1F"};
        for (auto p : pairs) { string r; for (size_t j = 0; j < n; ++j) r += p; judge(r, false); judge("x" + r, false); judge(r + "\\", false); k += 3; }
        fw::exhaustive_points(k);
        return;
    }
    string s(1, char(i));
    judge(s, true);
    for (int k = 0; k < 256; ++k) judge(s + char(k), true);
    if (i == 0) judge("", true);
    // Every escapable character between, before and after any two characters.
    uint64_t n = 257;
    for (int k = 0; k < 256; k += k < 0x80 ? 1 : 13)
        for (auto e : {"\"", "\\", "\n", "\1"})
        {
            string x(1, char(i)), y(1, char(k));
            judge(x + y + e, false); judge(e + x + y, false); judge(x + e + y, false);
            n += 3;
        }
    fw::exhaustive_points(n);
}
