#include <map>
#include "../apifw.hpp"
const char* const PROP_ID = "C28";
void prop_init()
{
    uni::load();
    for (auto n : {"64K-or-more", "empty-pattern", "malformed", "long-run-of-marks", "long-run-of-continuation-bytes", "extreme-index", "extreme-limit", "self-similar-pattern", "all-separators", "long-list", "many-ranges", "deep-decomposition",
                   "pattern-as-long-as-text", "long-list-short-text", "long-pattern", "long-replacement", "long-set-short-text", "every-length", "256K-of-one-unit"}) fw::require(n);
}
static std::map<string, std::pair<double, double>>& ratios() { static auto* m = new std::map<string, std::pair<double, double>>; return *m; }
// The work a call may take: STEPS basic blocks (bulk operations: bytes / 32)
// per unit of work, and BYTES allocated bytes per byte of input and output.
constexpr uint64_t STEPS = 400, BYTES = 200;
static uint64_t work(const api::Op& o, const api::Args& a)
{
    uint64_t n = a.s.size() + a.c.size() + a.to.size() + 4 * a.list.size() + 8 * a.ranges.size() + 64;
    switch (o.cost)
    {
    case api::CP: return 64;
    case api::TIMES_C: return n + a.s.size() * std::min(a.c.size(), a.s.size());
    case api::TIMES_LIST: return n + (a.s.size() + 1) * a.list.size();
    case api::TIMES_SET: return n + (a.s.size() + 1) * a.ranges.size() + a.list.size() * 4;
    default: return n;
    }
}
template <typename Pred>
static void judge_if(const api::Args& a, size_t first, size_t count, Pred pred)
{
    apifw::Placed p(a);
    auto n = api::ops().size();
    for (size_t k = 0; k < count; ++k)
    {
        auto op = (first + k) % n;
        auto& o = api::ops()[op];
        if (!pred(o, op)) continue;
        auto w = work(o, a);
        // (Generous, while the size of the output isn't known.)
        fw::step_budget = STEPS * (w + (a.s.size() + 8) * (a.to.size() + a.c.size() + 8));
        auto r = apifw::run(op, p);
        fw::step_budget = 2'000'000'000;
        auto ctx = [&] { return string(o.name) + " with " + api::show(a, apifw::esc2); };
        auto sb = STEPS * (w + r.result_bytes);
        auto in = a.s.size() + a.c.size() + a.to.size() + 4 * a.list.size() + 8 * a.ranges.size() + 64;
        auto bb = BYTES * (in + r.result_bytes) + 4096;
        if (r.steps > sb) FAIL(string("steps:") + o.name, std::to_string(r.steps) + " steps, allowed " + std::to_string(sb) + ": " + ctx());
        if (r.bytes > bb) FAIL(string("bytes:") + o.name, std::to_string(r.bytes) + " bytes allocated, allowed " + std::to_string(bb) + ": " + ctx());
        static const bool show = getenv("C28_RATIOS");
        if (show)
        {
            auto& q = ratios()[o.name];
            double x = double(r.steps) / double(w + r.result_bytes), y = double(r.bytes) / double(in + r.result_bytes);
            if (x > q.first) { q.first = x; fprintf(stderr, "STEPS %7.1f %s %s\n", x, o.name, api::show(a, apifw::esc2).substr(0, 100).c_str()); }
            if (y > q.second) { q.second = y; fprintf(stderr, "BYTES %7.1f %s\n", y, o.name); }
        }
    }
    if (a.s.size() >= 65000) EV("64K-or-more");
    if (a.c.empty()) EV("empty-pattern");
    if (!model::valid(a.s)) EV("malformed");
    if (a.i == PTRDIFF_MIN || a.i == PTRDIFF_MAX || a.j == PTRDIFF_MIN) EV("extreme-index");
    if (a.limit < -(ptrdiff_t(1) << 40) || a.limit > (ptrdiff_t(1) << 40)) EV("extreme-limit");
    if (a.list.size() > 100) EV("long-list");
    if (a.ranges.size() > 100) EV("many-ranges");
    if (a.c.size() > 256 && a.c.size() >= a.s.size() / 2) EV("pattern-as-long-as-text");
    fw::note(fw::Hash().add(a.s).add(a.c).add(a.to).add(a.off).add(uint64_t(a.i)).add(uint64_t(a.limit)).h, !a.s.empty());
}
static void judge(const api::Args& a, size_t first, size_t count)
{
    judge_if(a, first, count, [](auto&, size_t) { return true; });
}
// A long text made of one unit, and arguments that make it hard.
static api::Args family(Src& src, size_t target)
{
    api::Args a;
    string unit, head, tail;
    auto enc = [](uint32_t c) { return model::enc(c); };
    auto kind = src.below(22);
    switch (kind)
    {
    case 0: unit = "a"; break;
    case 1: unit = "ab"; break;
    case 2: unit = "a"; tail = "b"; break;
    case 3: unit = enc(src.pick(uni::marks)); head = src.chance(1, 2) ? "a" : ""; EV("long-run-of-marks"); break;
    case 4: unit = string(1, char(0x80 | src.below(64))); head = src.chance(1, 2) ? "\xF1" : src.chance(1, 2) ? "a" : ""; EV("long-run-of-continuation-bytes"); break;
    case 5: unit = string(1, char(0xC0 | src.below(64))); break;
    case 6: unit = "\r\n"; break;
    case 7: unit = src.pick(std::vector<string>{"\n", "\r", "\xC2\x85", "\xE2\x80\xA8"}); break;
    case 8: unit = src.pick(std::vector<string>{" ", "\t", "\xE3\x80\x80", "\xC2\xA0"}); tail = src.chance(1, 2) ? "x" : ""; head = src.chance(1, 2) ? "x" : ""; break;
    case 9: unit = src.pick(std::vector<string>{"\\", "\\\\", "\\n", "\\\n", "\\u0041", "\\uD83D\\uDE00", "\\uD83D", "\\x41", "\\101", "\"", "\x01"}); break;
    case 10: unit = enc(src.pick(uni::composed)); break;
    case 11: { auto c = src.pick(uni::composed); unit = model::enc(uni::decompose(c)); EV("deep-decomposition"); break; }
    case 12: unit = enc(src.pick(uni::odd_case)); break;
    case 13: unit = enc(src.pick(uni::cased)); break;
    case 14: unit = "\xC3\x9F"; break;
    case 15: unit = enc(0x10000 + src.below(0x100000)); break;
    case 16: unit = "0"; head = src.pick(std::vector<string>{"\\x", "\\u", "\\U", "\\", ""}); break;
    case 17: unit = "a"; head = enc(src.pick(uni::marks)); tail = "\xC3"; break;
    case 18: unit = gen::bytes(src).substr(0, 64); break;
    case 19: unit = "a" + enc(src.pick(uni::marks)); break;
    case 20: { auto c = src.pick(uni::composed); auto d = uni::decompose(c); head = enc(d[0]); unit = enc(d.back()); break; }
    default: unit = model::enc(gen::text(src).substr(0, 20));
    }
    if (unit.empty()) unit = "z";
    if (src.chance(1, 8)) tail += "\xFF";
    if (src.chance(1, 8)) head = "\x80" + head;
    a.s.reserve(target + 100);
    a.s = head;
    while (a.s.size() + unit.size() + tail.size() <= target) a.s += unit;
    a.s += tail;
    switch (src.below(8))
    {
    case 0: break;
    case 1: a.c = unit; break;
    case 2: a.c = unit + unit; break;
    case 3: a.c = unit + "!"; EV("self-similar-pattern"); break;
    case 4: a.c = "!" + unit; break;
    case 5: { string r; for (auto k = src.below(40); k; --k) r += unit; a.c = r + (src.chance(1, 2) ? "!" : ""); break; }
    case 6: a.c = a.s.size() <= 3000 ? a.s.substr(a.s.size() / 2) : unit; break;
    default: a.c = gen::byte_pattern(src, a.s.substr(0, 100)).substr(0, 40);
    }
    if (a.c == unit) EV("all-separators");
    a.to = src.chance(1, 3) ? "" : src.chance(1, 2) ? a.c.substr(0, 20) + "x" : unit.substr(0, 8);
    auto u = model::cps(unit);
    a.list = src.chance(1, 2) ? u.substr(0, 4) : U"!?";
    if (src.chance(1, 6) && target <= 5000) while (a.list.size() < 300) a.list += char32_t(0x5000 + a.list.size());
    a.ranges.emplace_back(src.chance(1, 2) ? u[0] : '!', src.chance(1, 2) ? u[0] : '!' + 2);
    if (src.chance(1, 6) && target <= 5000) while (a.ranges.size() < 300) a.ranges.emplace_back(0x5000 + 2 * a.ranges.size(), 0x5001 + 2 * a.ranges.size());
    a.negated = src.chance(1, 4); a.ignore = src.chance(1, 2);
    auto n = a.s.size();
    a.i = gen::index(src, n); a.j = gen::index(src, n); a.limit = gen::limit(src, 5);
    a.off = src.chance(1, 2) ? 0 : src.chance(1, 2) ? n : src.below(uint32_t(n) + 1);
    a.cp = src.chance(1, 2) ? uint32_t(u[0]) : gen::cp(src);
    a.cp2 = gen::cp(src);
    a.splits = src.chance(3, 4) ? SIZE_MAX : src.below(5);
    return a;
}
void prop_case(Src& src)
{
    auto n = api::ops().size();
    auto first = src.below(uint32_t(n));
    switch (src.below(8))
    {
    case 0: case 1: { auto a = gen::args(src); judge(a, first, n); break; }
    case 2: case 3: case 4: { auto a = family(src, 1000 + src.below(2000)); judge(a, first, n); break; }
    case 5: { auto a = family(src, 4096); judge(a, first, 40); break; }
    case 6: { auto a = family(src, 16384 + src.below(100)); judge(a, first, 16); break; }
    default: { auto a = family(src, 65536 + src.below(100)); judge(a, first, 8); }
    }
}
// The same text as pattern, as replacement, as list of code points and (by
// its code points) as set, each with a short string to search.
static void other_roles(Src& src, const api::Args& a)
{
    string text = a.s;
    auto short_text = text.substr(0, 30);
    std::u32string u;
    if (model::valid(text)) u = model::cps(text);
    else for (char ch : text) u += char32_t(uint8_t(ch));
    if (u.size() > 30000) u.resize(30000);
    if (src.chance(1, 2)) for (size_t i = 0; i < u.size(); ++i) u[i] = char32_t(0x4E00 + 3 * i); // (all different, none adjacent)
    for (int role = 0; role < 4; ++role)
    {
        auto b = a;
        b.s = role == 1 && src.chance(1, 2) ? text.substr(0, text.size() - 1) : short_text;
        b.off = src.chance(1, 2) ? 0 : b.s.size();
        if (role == 0) { b.list = u; b.ranges.clear(); EV("long-list-short-text"); }
        else if (role == 1)
        {
            // (the quadratic searches are allowed to take their time)
            b.c = text;
            if (b.s.size() > 100) { b.c = text.substr(0, 3000); b.s = text.substr(0, 2999); b.off = 0; }
            EV("long-pattern");
        }
        else if (role == 2) { b.to = text; b.c = short_text.substr(0, 8); EV("long-replacement"); }
        else { b.ranges.clear(); for (auto c : u) b.ranges.emplace_back(c, c + src.below(2)); EV("long-set-short-text"); }
        judge(b, 0, api::ops().size());
    }
}
// Every operation on long texts of each family, and on texts full of each
// remarkable code point (and other unit), with arguments that hit everywhere,
// nowhere and only at the last moment.
static uint64_t families() { return fw::tier_thorough() ? 2000 : 48; }
static const std::vector<string>& units()
{
    static const auto v = []
    {
        std::vector<string> r;
        for (auto c : gen::special()) r.push_back(model::enc(c));
        for (auto u : {"\r\n", "\n\r", "ab", "a\xCC\x81", "\\n", "\\\n", "\\\\", "\\u0041", "\\x41", "\\101", "\\uD83D\\uDE00", "\\\"", "a b", "a\n", " \n", "\xE2\x82\xAC!", "\x80", "\xBF", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xF8", "\xFF", "\xC0\x80", "\xED\xA0\x80", "\xEF\xBF\xBD""a", "abcdefghijklmnop"}) r.push_back(u);
        r.push_back(string(1, '\0') + "a");
        return r;
    }();
    return v;
}
uint64_t prop_exhaustive_count() { return families() + units().size() + gen::LONG_SWEEPS; }
// Patterns, lists, sets and texts of every length, so that a length at which
// a search gets stuck or slow is among them.
static void lengths(uint32_t k)
{
    auto n_ops = api::ops().size();
    for (auto n : gen::long_sizes(k))
    {
        auto kind = unsigned(n / 256 + n) % 3;
        auto u = gen::long_text(n, kind);
        auto text = model::enc(u);
        if (fw::tier_thorough() || n < 300 || n % 128 == 0) kind = 3;
        auto by = [](api::Cost c) { return [c](auto& o, size_t) { return o.cost == c; }; };
        api::Args a;
        a.to = "#";
        a.i = 0; a.j = PTRDIFF_MAX; a.limit = n % 2 ? PTRDIFF_MAX : PTRDIFF_MIN; a.splits = SIZE_MAX;
        a.cp = '#'; a.cp2 = '+';
        a.list = U"#"; a.ranges = {{'#', '#'}};
        // the pattern
        a.c = text;
        string rest(std::min(n + 40, size_t(9000)), '#');
        for (int v = 0; v < 3; ++v)
        {
            if (v != int(n % 3) && kind != 3) continue;
            a.s = v == 0 ? rest + text : v == 1 ? rest : text.substr(0, text.size() - std::min(text.size(), size_t(1))) + "##";
            if (v == 1 && n < 3000) while (a.s.size() < n * 2) a.s += "ab";
            a.off = n % 5 ? 0 : a.s.size();
            if (model::valid(a.s) || n % 2) judge_if(a, 0, n_ops, by(api::TIMES_C));
        }
        // the list and the set
        a.c = "#";
        if (n <= 10000)
        {
            a.s = "######## ##++++++ # #";
            a.off = n % 3 ? 0 : a.s.size();
            a.list = u;
            for (auto c : u) a.ranges.emplace_back(c + 0x30000, c + 0x30000);
            judge_if(a, 0, n_ops, [](auto& o, size_t) { return o.cost == api::TIMES_LIST || o.cost == api::TIMES_SET; });
            a.list = U"#"; a.ranges = {{'#', '#'}};
        }
        // the text and the replacement
        a.s = text;
        a.off = n % 3 ? 0 : a.s.size();
        judge_if(a, 0, n_ops, [&](auto& o, size_t i) { return o.cost == api::LIN && (kind == 3 || i % 8 == n % 8); });
        a.to = text; a.s = "#";
        a.off = n % 3 ? 0 : 1;
        judge_if(a, 0, n_ops, [&](auto&, size_t i) { return kind == 3 || i % 8 == (n + 1) % 8; });
    }
    EV("every-length");
}
static void full_of(const string& u)
{
    auto first = model::cps(u)[0];
    for (int variant = 0; variant < 5; ++variant)
    {
        api::Args a;
        // (The last one is long enough for bulk moves of the rest to show.)
        auto size = size_t(variant == 4 ? (fw::tier_thorough() ? 1 << 20 : 1 << 18) : fw::tier_thorough() ? 65536 : 8192);
        while (a.s.size() + u.size() <= size) a.s += u;
        a.cp = first; a.cp2 = 0xFFFF; a.limit = PTRDIFF_MAX; a.splits = SIZE_MAX;
        switch (variant)
        {
        case 0: a.c = "\xEF\xBF\xBE"; a.list = U"\uFFFE\U0010FFFE"; a.ranges = {{0x10FFFC, 0x10FFFE}}; a.off = 0; a.i = 0; a.j = PTRDIFF_MAX; a.to = "x"; break; // misses everywhere
        case 1: a.c = u; a.list = {char32_t(first)}; a.ranges = {{first, first}}; a.off = a.s.size(); a.i = -1; a.j = PTRDIFF_MAX; a.to = u + "."; a.ignore = true; break; // hits everywhere
        case 2: a.c = u + "\xEF\xBF\xBE"; a.list = {char32_t(first), 0xFFFE}; a.ranges = {{first, first}}; a.negated = true; a.off = a.s.size() / u.size() / 2 * u.size(); a.i = PTRDIFF_MIN; a.j = -1; a.limit = -1; break; // nearly
        case 4: a.c = u; a.list = {char32_t(first)}; a.ranges = {{first, first}}; a.off = 0; a.i = 0; a.j = -1; if (u.size() % 2) a.limit = PTRDIFF_MIN; EV("256K-of-one-unit"); break; // removes everywhere
        default: a.s += "\xEF\xBF\xBE"; a.c = u + u + "\xEF\xBF\xBE"; a.list = U"\uFFFE"; a.ranges = {{0xFFFE, 0xFFFE}}; a.i = ptrdiff_t(size / 2); a.j = PTRDIFF_MAX - 1; a.limit = PTRDIFF_MIN; a.off = 0; // at the end
        }
        judge(a, 0, api::ops().size());
    }
}
void prop_exhaustive(uint64_t i)
{
    if (i >= families() + units().size()) { lengths(uint32_t(i - families() - units().size())); fw::exhaustive_points(40); return; }
    if (i >= families()) { full_of(units()[i - families()]); fw::exhaustive_points(5 * api::ops().size()); return; }
    uint8_t tape[fw::Src::MAX];
    Src s{tape};
    s.rng.s = fw::seed() * 7777 + i;
    auto a = family(s, fw::tier_thorough() ? (i % 8 ? 131072 : 1 << 20) : (i % 4 ? 65536 : 131072));
    judge(a, 0, api::ops().size());
    other_roles(s, a);
    fw::exhaustive_points(5 * api::ops().size());
    if (i < 3) fw::sample(api::show(a, apifw::esc2));
}
