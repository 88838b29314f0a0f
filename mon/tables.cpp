// C29: the library's lookups, built with generated tables, against the
// database (UNI_DATA) the tables were generated from.
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <Ystring/CharClass.hpp>
#include <Ystring/ConvertCase.hpp>
#include <Ystring/Normalize.hpp>
#include <Ystring/YstringException.hpp>
#include "uni.hpp"

static void fail(const char* key, uint32_t c, uint32_t c2, uint64_t got, uint64_t expected)
{
    printf("VIOL %s U+%X U+%X gives %" PRIX64 ", the database says %" PRIX64 "\n", key, c, c2, got, expected);
    fflush(stdout);
    _Exit(3);
}
static void put(std::string& s, uint32_t c)
{
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
}
static uint64_t digest = 14695981039346656037ull;
static void mix(uint64_t v) { digest = (digest ^ v) * 1099511628211ull; }
static uint64_t n_class, n_case, n_decomp, n_comp, n_nocomp, n_mapped, n_expanded;

static void check_pair(uint32_t a, uint32_t b)
{
    if (a > uni::MAX || b > uni::MAX) return;
    std::string s, e;
    put(s, a); put(s, b);
    auto c = uni::compose(a, b);
    if (c) { put(e, c); ++n_comp; } else { e = s; ++n_nocomp; }
    auto r = ystring::to_composed(s);
    if (r != e) fail(c ? "compose" : "compose-nothing", a, b, r == s ? 0 : r.size(), c);
    for (auto ch : r) mix(uint8_t(ch));
}

int main()
{
    uni::load();
    for (uint32_t c = 0; c <= uni::MAX + 70000; ++c)
    {
        auto cls = uint64_t(ystring::get_char_class(char32_t(c)));
        if (cls != 1ull << uni::gc(c)) fail("class", c, 0, cls, 1ull << uni::gc(c));
        auto u = uint32_t(ystring::to_upper(char32_t(c))), l = uint32_t(ystring::to_lower(char32_t(c))), t = uint32_t(ystring::to_title(char32_t(c)));
        if (u != uni::upper(c)) fail("upper", c, 0, u, uni::upper(c));
        if (l != uni::lower(c)) fail("lower", c, 0, l, uni::lower(c));
        if (t != uni::title(c)) fail("title", c, 0, t, uni::title(c));
        auto d = ystring::decompose(char32_t(c));
        auto e = uni::decompose(c);
        if (d != e) fail("decompose", c, 0, d.empty() ? 0 : d[0], e[0]);
        n_mapped += (u != c) + (l != c) + (t != c);
        n_expanded += e.size() > 1;
        ++n_class; n_case += 3; ++n_decomp;
        mix(cls); mix(u); mix(l); mix(t);
        for (auto ch : d) mix(ch);
        mix(0xFFFFFFFF);
        if (c <= uni::MAX && e.size() > 1)
        {
            // The string variants look the same things up.
            std::string s, x;
            put(s, c);
            for (auto ch : e) put(x, ch);
            if (ystring::to_decomposed(s) != x) fail("to_decomposed", c, 0, 0, 0);
        }
    }
    std::vector<uint32_t> firsts, seconds;
    for (auto& [p, c] : uni::comp)
    {
        check_pair(p.first, p.second);
        if (firsts.empty() || firsts.back() != p.first) firsts.push_back(p.first);
        seconds.push_back(p.second);
    }
    // Pairs around and between those which compose
    size_t k = 0;
    for (auto& [p, c] : uni::comp)
    {
        for (uint32_t i = 1; i <= 2; ++i)
        {
            check_pair(p.first + i, p.second); check_pair(p.first, p.second + i);
            if (p.first >= i) check_pair(p.first - i, p.second);
            check_pair(p.first, p.second - i);
        }
        for (int j = 0; j < 24; ++j, k += 7919) check_pair(p.first, seconds[k % seconds.size()]);
        for (int j = 0; j < 24; ++j, k += 104729) check_pair(firsts[k % firsts.size()], p.second);
        if (p.second < p.first || p.second >= 0x300) check_pair(p.second, p.first);
        check_pair(c, p.second);
        check_pair(p.first & 0xFFFF, p.second);
        check_pair(p.first ^ 0x10000, p.second);
        check_pair(p.first, p.second ^ 0x10000);
    }
    printf("OK class=%" PRIu64 " case=%" PRIu64 " mapped=%" PRIu64 " decompose=%" PRIu64 " expanded=%" PRIu64 " compose=%" PRIu64 " compose_nothing=%" PRIu64 " digest=%016" PRIX64 "\n",
           n_class, n_case, n_mapped, n_decomp, n_expanded, n_comp, n_nocomp, digest);
}
