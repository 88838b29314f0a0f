#include "../common.hpp"
const char* const PROP_ID = "C04";
void prop_init()
{
    uni::load();
    for (auto n : {"already-valid", "repaired", "adjacent-errors", "error-at-start", "error-at-end", "longer", "shorter", "custom-replacement", "repair-repeated"}) fw::require(n);
}
static void judge(string_view s, uint32_t ch)
{
    auto v = model::parse(s);
    string e;
    auto repl = model::enc(ch);
    bool ok = true, adjacent = false;
    for (size_t i = 0; i < v.size(); ++i)
    {
        e += v[i].ok ? string(s.substr(v[i].off, v[i].len)) : repl;
        if (!v[i].ok) { ok = false; if (i && !v[i - 1].ok) adjacent = true; }
    }
    auto ctx = "(" + esc(s) + ", U+" + hexs(ch) + ")";
    In is(s);
    auto r = CALL("replace_invalid_utf8(view)", ys::replace_invalid_utf8(is.sv(), char32_t(ch)));
    expect_str("replace_invalid_utf8(view)", r, e, ctx);
    string t(s);
    auto* p = &t;
    auto q = CALL("replace_invalid_utf8(string&)", &ys::replace_invalid_utf8(t, char32_t(ch)));
    if (!q.ok() || q.v != p || t != e) FAIL("value:replace_invalid_utf8(string&)", "replace_invalid_utf8(string&)" + ctx + " gave " + esc(t) + ", expected " + esc(e));
    auto valid = CALL("is_valid_utf8", ys::is_valid_utf8(r.v));
    if (!valid.ok() || !valid.v) FAIL("still-invalid", "the result of replace_invalid_utf8" + ctx + " isn't valid");
    if (ch == 0xFFFD)
    {
        expect_str("replace_invalid_utf8(view)", CALL("replace_invalid_utf8(view)", ys::replace_invalid_utf8(is.sv())), e, ctx);
        string u(s);
        CALL("replace_invalid_utf8(string&)", &ys::replace_invalid_utf8(u));
        if (u != e) FAIL("value:replace_invalid_utf8(string&)", "replace_invalid_utf8(string&)" + ctx + " gave " + esc(u));
    }
    In ir(r.v);
    expect_str("replace_invalid_utf8(view)", CALL("replace_invalid_utf8(view)", ys::replace_invalid_utf8(ir.sv(), char32_t(ch))), e, ctx + ", repeated");
    EV("repair-repeated");
    if (ok) EV("already-valid"); else EV("repaired");
    if (adjacent) EV("adjacent-errors");
    if (!ok && !v.front().ok) EV("error-at-start");
    if (!ok && !v.back().ok) EV("error-at-end");
    if (e.size() > s.size()) EV("longer");
    if (e.size() < s.size()) EV("shorter");
    if (ch != 0xFFFD) EV("custom-replacement");
    fw::note(fw::Hash().add(s).add(ch).h, !s.empty());
}
void prop_case(Src& src)
{
    auto s = gen::bytes(src);
    judge(s, 0xFFFD);
    judge(s, gen::cp(src));
    if (src.chance(1, 6)) fw::sample(esc(s, 80));
    if (src.chance(1, 300) && !s.empty())
    {
        string l;
        while (l.size() < 70000) l += s;
        judge(l, 0xFFFD);
        EV("long");
    }
}
static const unsigned char CLS[] = {0x00, 0x41, 0x80, 0xBF, 0xC0, 0xDF, 0xE0, 0xEF, 0xF0, 0xF7, 0xF8, 0xFF};
constexpr uint64_t K = sizeof(CLS);
static uint64_t others() { return K * K * K + 0x1100; }
uint64_t prop_exhaustive_count() { return others() + gen::LONG_SWEEPS; }
// Runs of errors, and errors around well-formed texts, of all lengths
static uint64_t lengths(uint32_t k)
{
    static const char* bad[] = {"\x80", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xF8", "\xFF", "\xFE\x80\x80\x80\x80\x80", "\xF0\x9F", "\xE2"};
    uint64_t p = 0;
    for (auto n : gen::long_sizes(k))
    {
        string b = bad[n % std::size(bad)], run, mix, cont(n, '\xBF');
        auto s = model::enc(gen::long_text(n, unsigned(n / 2) % 3));
        for (size_t i = 0; i < n; ++i) { run += b; mix += i * i % 7 == 2 ? b : i % 5 == 1 ? "\xC3\xA5" : "a"; }
        uint32_t ch = n % 3 == 0 ? 0xFFFD : n % 3 == 1 ? '?' : 0x1F600;
        for (auto& t : {s, s + b, b + s, s + b + s, run, s.substr(0, s.size() / 2) + run, mix, "\xC3" + cont, "\xF4" + cont + "a", "a" + cont}) { judge(t, ch); ++p; }
    }
    return p;
}
void prop_exhaustive(uint64_t i)
{
    if (i >= others()) { fw::exhaustive_points(lengths(uint32_t(i - others()))); return; }
    if (i >= K * K * K)
    {
        // Every replacement character
        for (uint32_t k = 0; k < 256; ++k) judge("a\xE2\x82\xC3\xA5\x80", uint32_t((i - K * K * K) * 256 + k));
        fw::exhaustive_points(256);
        return;
    }
    string s{char(CLS[i / K / K]), char(CLS[i / K % K]), char(CLS[i % K])};
    judge(s, 0xFFFD);
    for (auto a : CLS)
    {
        judge(s + char(a), 0xFFFD);
        for (auto b : CLS) { judge(s + char(a) + char(b), 'x'); if (fw::tier_thorough()) for (auto c : CLS) judge(s + char(a) + char(b) + char(c), 0xFFFD); }
    }
    fw::exhaustive_points(1 + K + K * K + (fw::tier_thorough() ? K * K * K : 0));
    if (i == 0)
    {
        for (int n = 0; n < 3; ++n)
        {
            string t = string("\xC3\xA5z", size_t(n));
            t.resize(size_t(n));
            if (n < 3) { judge("", 0xFFFD); judge("a", 'b'); }
        }
    }
}
