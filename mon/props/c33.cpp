#include "../common.hpp"
#include <forward_list>
#include <list>
#include <ostream>
#include <sstream>
#include <streambuf>
const char* const PROP_ID = "C33";
static const bool CONSTANT = Subrange(3, 4).end() == 7 && Subrange(3, 4).start() == 3 && Subrange(3, 4) && !Subrange(3, 0) && !Subrange(3) && Subrange(3).start() == 3 && !Subrange() && Subrange(1, 2) == Subrange(1, 2) && Subrange(1, 2) != Subrange(1, 3);
void prop_init()
{
    uni::load();
    for (auto n : {"subrange", "subrange-of-iterators", "equal", "same-offset-only", "same-length-only", "printed-subrange", "printed-set", "printed-negated", "printed-empty-set", "printed-beyond", "printed-nul", "printed-long", "failing-stream", "throwing-stream", "second-write", "set-copied", "set-moved", "set-assigned-ranges", "set-reversed-range", "token-iterator-copied", "token-iterator-copied-midway", "token-iterator-assigned", "token-iterator-copied-at-end"}) fw::require(n);
}
// Accepts a number of bytes, then fails (or throws).
struct Pipe : std::streambuf
{
    string got; size_t room; bool raise;
    explicit Pipe(size_t r = SIZE_MAX, bool x = false) : room(r), raise(x) {}
    int_type overflow(int_type c) override
    {
        if (!room) { if (raise) throw 7; return traits_type::eof(); }
        if (c != traits_type::eof()) { got += char(c); --room; }
        return traits_type::not_eof(c);
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        auto k = std::min<size_t>(size_t(n), room);
        got.append(p, k); room -= k;
        if (k != size_t(n) && raise) throw 7;
        return std::streamsize(k);
    }
};
static string text_of(const Subrange& s) { return "{offset: " + std::to_string(s.offset) + ", length: " + std::to_string(s.length) + "}"; }
static string text_of(const ys::CodepointSet& s)
{
    string r = s.negated ? "[^" : "[";
    auto put = [&](char32_t c) { if (c <= uni::MAX) r += model::enc(c); };
    for (auto& [a, b] : s.ranges) { put(a); if (a != b) { r += '-'; put(b); } }
    return r + "]";
}
static string show(const ys::CodepointSet& s)
{
    string r = s.negated ? "set ^" : "set ";
    for (auto& [a, b] : s.ranges) r += hexs(a) + "-" + hexs(b) + " ";
    return r;
}
static string show(const Subrange& s) { return str(s); }
struct State { std::ios_base::fmtflags f; std::streamsize w, p; char fill; bool operator==(const State&) const = default; };
static State state(const std::ostream& o) { return {o.flags(), o.width(), o.precision(), o.fill()}; }
template <class T> static void printing(const char* fn, const T& value, Src& src)
{
    auto e = text_of(value);
    auto ctx = "(" + show(value) + ")";
    expect_str(fn, CALL(fn, shim::print(value)), e, ctx);
    // Into a stream that has been used before, and is used after
    {
        Pipe p;
        std::ostream o(&p);
        o << "before ";
        auto before = state(o);
        auto r = CALL(fn, &(o << value));
        auto* same = r.ok() ? r.v : nullptr;
        if (same != &o) FAIL(string("stream:") + fn, string(fn) + ctx + " doesn't return its stream");
        if (!(state(o) == before) || !o.good()) FAIL(string("state:") + fn, string(fn) + ctx + " leaves the stream in another state");
        o << '|';
        CALL(fn, (o << value).good());
        o << 17;
        if (p.got != "before " + e + "|" + e + "17") FAIL(string("printed:") + fn, string(fn) + ctx + " twice gave " + esc(p.got));
        EV("second-write");
    }
    // Into a stream that fails somewhere
    {
        auto room = src.below(uint32_t(e.size()) + 1);
        bool raise = src.chance(1, 3);
        Pipe p(room, raise);
        std::ostream o(&p);
        auto r = CALL(fn, (o << value).good());
        if (!r.ok()) FAIL(string("throw:") + fn, string(fn) + ctx + " threw for a stream that fails silently");
        else if (p.got != e.substr(0, room)) FAIL(string("prefix:") + fn, string(fn) + ctx + " into a stream with room for " + std::to_string(room) + " bytes gave " + esc(p.got));
        else if (o.good() != (room == e.size())) FAIL(string("good:") + fn, string(fn) + ctx + ": the stream's state is wrong");
        EV(raise ? "throwing-stream" : "failing-stream");
    }
}
static size_t num_of(Src& src)
{
    switch (src.below(8))
    {
    case 0: return 0;
    case 1: return SIZE_MAX - src.below(3);
    case 2: return size_t(1) << src.below(64);
    case 3: return (size_t(1) << src.below(64)) - 1;
    case 4: return size_t(src.u32()) << 32 | src.u32();
    default: return src.below(1000);
    }
}
static void subranges(Src& src)
{
    size_t a = num_of(src), b = num_of(src), c = src.chance(1, 2) ? a : num_of(src), d = src.chance(1, 2) ? b : num_of(src);
    Subrange x(a, b), y(c, d), z(a), none;
    EV("subrange");
    auto ctx = "(" + str(x) + ", " + str(y) + ")";
    if (x.offset != a || x.length != b || x.start() != a || x.end() != a + b || bool(x) != (b != 0)) FAIL("subrange", "Subrange" + ctx + " is wrong");
    if (z.offset != a || z.length != 0 || z.start() != a || z.end() != a || z) FAIL("subrange-offset", "Subrange(" + std::to_string(a) + ") is wrong");
    if (none || none.length || none.offset != SIZE_MAX || !(none == Subrange()) || !(none == Subrange(SIZE_MAX, 0))) FAIL("subrange-default", "Subrange() is wrong");
    bool e = a == c && b == d;
    if ((x == y) != e || (y == x) != e || (x != y) == e || (y != x) == e || !(x == x) || x != x) FAIL("subrange-equal", "comparing Subrange" + ctx + " is wrong");
    if (e) EV("equal"); else if (a == c) EV("same-offset-only"); else if (b == d) EV("same-length-only");
    auto copy = x;
    copy.offset += 1;
    if (x.offset != a || copy == x) FAIL("subrange-copy", "copies of Subrange" + ctx + " aren't independent");
    copy = y;
    if (!(copy == y)) FAIL("subrange-assign", "assigning Subrange" + ctx + " is wrong");
    // From three iterators of all kinds
    auto n = src.below(70), i = src.below(n + 1), k = i + src.below(n - i + 1);
    string s(n, 'x');
    auto made = [&](const char* what, const Subrange& r) { if (r.offset != i || r.length != k - i) FAIL("subrange-iterators", string("Subrange of ") + what + " iterators at " + std::to_string(i) + " and " + std::to_string(k) + " = " + str(r)); EV("subrange-of-iterators"); };
    made("string", Subrange(s.begin(), s.begin() + i, s.begin() + k));
    made("constant", Subrange(s.cbegin(), s.cbegin() + i, s.cbegin() + k));
    made("pointer", Subrange(s.data(), s.data() + i, s.data() + k));
    std::list<char> l(s.begin(), s.end());
    made("list", Subrange(l.begin(), std::next(l.begin(), i), std::next(l.begin(), k)));
    std::forward_list<uint8_t> f(s.begin(), s.end());
    made("forward", Subrange(f.begin(), std::next(f.begin(), i), std::next(f.begin(), k)));
    printing("operator<<(Subrange)", x, src);
    EV("printed-subrange");
    fw::note(fw::Hash().add(a).add(b).add(c).add(d).h, a || b);
}
static uint32_t point(Src& src, uint32_t prev)
{
    switch (src.below(8))
    {
    case 0: return prev + 1;
    case 1: return src.chance(1, 3) ? 0xFFFFFFFF - src.below(3) : uni::MAX + src.below(3);
    case 2: return 0;
    case 3: return uint32_t("-[]^\\\n\"a"[src.below(8)]);
    default: return gen::cp(src, prev);
    }
}
static void judge_set(const ys::CodepointSet& s, const std::vector<std::pair<uint32_t, uint32_t>>& m, bool neg, uint32_t c, const char* what)
{
    bool e = neg;
    for (auto& [a, b] : m) if (a <= c && c <= b) e = !neg;
    auto r = CALL("CodepointSet::contains", s.contains(char32_t(c)));
    if (!r.ok() || r.v != e) FAIL(string("contains:") + what, show(s) + what + " contains(U+" + hexs(c) + ") is wrong");
}
static void code_point_sets(Src& src)
{
    ys::CodepointSet s;
    std::vector<std::pair<uint32_t, uint32_t>> m;
    uint32_t prev = 'a';
    auto n = src.chance(1, 8) ? src.below(60) : src.below(5);
    for (uint32_t i = 0; i < n; ++i)
    {
        auto a = point(src, prev), b = src.chance(1, 2) ? a : src.chance(1, 6) ? point(src, a) : a + src.below(5) < a ? a : a + src.below(5);
        m.push_back({a, b});
        prev = b;
    }
    bool neg = src.chance(1, 3);
    // Its members are public: filled by hand
    for (auto& [a, b] : m) { s.ranges.emplace_back(char32_t(a), char32_t(b)); if (a > b) EV("set-reversed-range"); if (a > uni::MAX || b > uni::MAX) EV("printed-beyond"); if (!a || !b) EV("printed-nul"); }
    s.negated = neg;
    auto before = s.ranges;
    printing("operator<<(CodepointSet)", s, src);
    if (s.ranges != before || s.negated != neg) FAIL("print-changes", "printing changed the " + show(s));
    EV("printed-set"); if (neg) EV("printed-negated"); if (m.empty()) EV("printed-empty-set"); if (n > 20) EV("printed-long");
    auto probe = [&](const ys::CodepointSet& t, const std::vector<std::pair<uint32_t, uint32_t>>& mm, bool g, const char* what)
    {
        for (auto& [a, b] : mm) for (auto c : {a, b, a - 1, b + 1}) judge_set(t, mm, g, c, what);
        judge_set(t, mm, g, 'a', what); judge_set(t, mm, g, gen::cp(src), what);
    };
    probe(s, m, neg, "by hand");
    EV("set-assigned-ranges");
    // A copy, changed: the original is the same as ever.
    auto copy = s;
    auto m2 = m;
    auto extra = point(src, prev);
    {
        auto r1 = CALL("CodepointSet::add", (copy.add_range(char32_t(extra), char32_t(extra)), true));
        if (!r1.ok()) FAIL("add", "adding to " + show(s) + " threw");
        m2.push_back({extra, extra});
        copy.negated = !neg;
    }
    probe(copy, m2, !neg, "copied and changed");
    probe(s, m, neg, "whose copy was changed");
    if (s.ranges != before) FAIL("copy", "changing a copy changed the " + show(s));
    EV("set-copied");
    auto moved = std::move(copy);
    probe(moved, m2, !neg, "moved");
    copy = s; // (assigned to again)
    probe(copy, m, neg, "assigned");
    s.ranges.clear(); m.clear();
    probe(s, m, neg, "cleared");
    EV("set-moved");
    if (src.chance(1, 6)) fw::sample(show(moved));
    fw::note(fw::Hash().add(text_of(moved)).add(uint64_t(neg)).h, !moved.ranges.empty());
}
struct Find
{
    string sep;
    Subrange operator()(string_view rest) const { auto x = rest.find(sep); return x == string_view::npos || sep.empty() ? Subrange() : Subrange(x, sep.size()); }
};
using It = ys::TokenIterator<Find>;
struct Step { string_view part, token, rest; bool has, more; };
static std::vector<Step> walk(It& it, size_t max = SIZE_MAX)
{
    std::vector<Step> r;
    for (size_t i = 0; i < max && i < 1000000; ++i)
    {
        auto more = CALL("TokenIterator", it.next());
        if (!more.ok()) { FAIL("throw:TokenIterator", "TokenIterator::next threw"); break; }
        if (!more.v) break;
        r.push_back({it.part(), it.token(), it.remainder(), bool(it), true});
    }
    return r;
}
static bool alike(const std::vector<Step>& a, const std::vector<Step>& b)
{
    auto eq = [](string_view x, string_view y) { return x == y && (x.empty() || x.data() == y.data()); };
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [&](auto& x, auto& y) { return eq(x.part, y.part) && eq(x.token, y.token) && eq(x.rest, y.rest) && x.has == y.has; });
}
static void token_iterators(Src& src)
{
    auto s = gen::utf8(src);
    auto sep = gen::byte_pattern(src, s);
    In is(s);
    auto ctx = "TokenIterator(" + esc(s) + ", " + esc(sep) + ")";
    It first(is.sv(), Find{sep});
    auto unused = first;
    auto all = walk(first);
    auto at = src.below(uint32_t(all.size()) + 2);
    auto it = unused;
    walk(it, at);
    auto copy = it;
    EV("token-iterator-copied");
    if (at && at < all.size()) EV("token-iterator-copied-midway");
    if (at >= all.size()) EV("token-iterator-copied-at-end");
    auto now = [&](const It& i) { return std::vector<Step>{{i.part(), i.token(), i.remainder(), bool(i), true}}; };
    if (!alike(now(copy), now(it))) FAIL("token-copy", "a copy of " + ctx + " after " + std::to_string(at) + " steps differs");
    std::vector<Step> rest(all.begin() + std::min<ptrdiff_t>(at, ptrdiff_t(all.size())), all.end());
    auto a = walk(it);
    auto b = walk(copy);
    if (!alike(a, rest)) FAIL("token-rest", ctx + " goes on in another way after it has been copied, after " + std::to_string(at) + " steps");
    if (!alike(b, rest)) FAIL("token-copy-rest", "a copy of " + ctx + " goes on in another way, after " + std::to_string(at) + " steps");
    auto c = walk(unused);
    if (!alike(c, all)) FAIL("token-unused", "an untouched copy of " + ctx + " doesn't start from the beginning");
    It other(string_view("x--y"), Find{"-"});
    walk(other, 1);
    auto third = It(is.sv(), Find{sep});
    other = third;
    if (!alike(walk(other), all)) FAIL("token-assigned", "an iterator assigned " + ctx + " doesn't start from the beginning");
    EV("token-iterator-assigned");
    fw::note(fw::Hash().add(s).add(sep).add(uint64_t(at)).h, !s.empty());
}
void prop_case(Src& src)
{
    switch (src.below(3))
    {
    case 0: subranges(src); break;
    case 1: code_point_sets(src); break;
    default: token_iterators(src);
    }
}
// Every code point, alone and as either end of a range, printed.
uint64_t prop_exhaustive_count() { return 0x1101; }
void prop_exhaustive(uint64_t i)
{
    if (!CONSTANT) FAIL("value:Subrange", "a subrange that is a constant expression has wrong properties");
    for (uint32_t k = 0; k < 256; ++k)
    {
        auto c = uint32_t(i * 256 + k);
        ys::CodepointSet s;
        s.ranges = {{char32_t(c), char32_t(c)}, {char32_t(c), char32_t(c + 1)}, {char32_t('z'), char32_t(c)}};
        expect_str("operator<<(CodepointSet)", CALL("operator<<(CodepointSet)", shim::print(s)), text_of(s), "(" + show(s) + ")");
        Subrange r(c, c ^ 0x155);
        expect_str("operator<<(Subrange)", CALL("operator<<(Subrange)", shim::print(r)), text_of(r), "");
    }
    fw::exhaustive_points(512);
}
