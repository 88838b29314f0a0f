#include "../apifw.hpp"
const char* const PROP_ID = "C01";
void prop_init()
{
    uni::load();
    for (auto n : {"malformed-text", "well-formed-text", "empty-text", "null-empty-text", "extreme-index", "extreme-limit", "invalid-code-point", "offset-inside-sequence", "offset-at-end", "text-ends-in-sequence", "nul-in-text", "call:to_utf32:throw",
                   "call:unescape(string):throw", "call:unescape_next:throw", "call:reverse:throw"}) fw::require(n);
}
static void judge(const api::Args& a, size_t first, size_t count)
{
    bool null = a.s.empty() && (a.off + a.c.size()) % 2;
    {
        apifw::Placed p(a, null);
        auto n = api::ops().size();
        for (size_t k = 0; k < count; ++k)
            apifw::run((first + k) % n, p);
    }
    if (model::valid(a.s)) EV("well-formed-text"); else EV("malformed-text");
    if (a.s.empty()) { EV("empty-text"); if (null) EV("null-empty-text"); }
    if (a.i == PTRDIFF_MIN || a.j == PTRDIFF_MIN || a.i == PTRDIFF_MAX) EV("extreme-index");
    if (a.limit == PTRDIFF_MIN) EV("extreme-limit");
    if (a.cp > uni::MAX) EV("invalid-code-point");
    if (a.off < a.s.size() && model::cont(a.s[a.off])) EV("offset-inside-sequence");
    if (a.off == a.s.size() && a.off) EV("offset-at-end");
    if (!a.s.empty() && model::announced(a.s.back()) > 0) EV("text-ends-in-sequence");
    if (a.s.find('\0') != a.s.npos) EV("nul-in-text");
    fw::note(fw::Hash().add(a.s).add(a.c).add(a.to).add(a.off).add(a.cp).add(uint64_t(a.i)).add(uint64_t(a.j)).h, !a.s.empty());
}
void prop_case(Src& src)
{
    auto first = src.below(uint32_t(api::ops().size()));
    auto a = gen::args(src, src.chance(1, 4) ? gen::VALID : gen::HOSTILE);
    bool big = a.s.size() > 600;
    judge(a, first, big ? 12 : api::ops().size());
    if (src.chance(1, 6)) fw::sample(api::show(a, apifw::esc2));
}
// All byte strings of up to three bytes out of the telling ones, at all offsets.
static const uint8_t BYTES[] = {0x00, 0x0A, 0x0D, 0x20, 0x22, 0x41, 0x5C, 0x75, 0x78, 0x7F, 0x80, 0x85, 0xBF, 0xC2, 0xCC, 0xDF, 0xE2, 0xED, 0xF0, 0xF4, 0xF8, 0xFF};
constexpr size_t NB = sizeof BYTES;
uint64_t prop_exhaustive_count() { return 1 + NB + NB * NB; }
void prop_exhaustive(uint64_t i)
{
    string s;
    if (i > NB) { auto k = i - 1 - NB; s += char(BYTES[k % NB]); s += char(BYTES[k / NB]); }
    else if (i) s += char(BYTES[i - 1]);
    uint64_t n = 0;
    auto run = [&](const string& t)
    {
        api::Args a;
        a.s = t; a.c = t.substr(0, 1 + n % 2); a.to = "xy";
        a.list = {U'A', U'\n', char32_t(0x85)};
        a.ranges = {{0x40, 0x80}};
        a.cp = 'A'; a.cp2 = 0x300;
        for (size_t off = 0; off <= t.size(); ++off)
        {
            a.off = off; a.i = ptrdiff_t(off); a.j = -ptrdiff_t(off % 2) - 1; a.limit = off % 2 ? -1 : 1;
            judge(a, 0, api::ops().size());
            ++n;
        }
    };
    run(s);
    if (s.size() == 2 && (fw::tier_thorough() || i % 7 == 0)) for (auto b : BYTES) run(s + char(b));
    fw::exhaustive_points(n * api::ops().size());
}
