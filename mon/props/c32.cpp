// Code supplied by the caller: predicates, token finders, iterators.
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include "../common.hpp"
const char* const PROP_ID = "C32";
void prop_init()
{
    uni::load();
#ifndef C32_PLAIN
    for (auto n : {"throw:custom", "throw:int", "throw:derived", "throw:library-type", "throw:bad-alloc", "throw:pointer", "throw-at-first-call", "throw-at-last-call", "throw-after-result",
                   "result-at-first", "result-at-last", "no-result", "malformed-before-result", "malformed-after-result", "nested-calls", "counting-predicate", "predicate:int", "predicate:object", "predicate:function",
                   "predicate:pointer-result", "predicate:by-value-state", "predicate:widening", "finder:widths", "finder:context", "finder:by-value", "iterator-kept-after-throw", "iterator-copied", "iterator-moved", "join:single-pass", "join:temporaries", "join:c-strings",
                   "join:converting", "join:own-strings", "join:throw", "checked-iterator:malformed", "checked-iterator:throw", "unsigned-bytes", "char8", "long-text"}) fw::require(n);
#endif
}

// What a callback may throw ---------------------------------------------------
struct Boom { int id; string text; };
struct Special : std::runtime_error { int id; Special(int i) : std::runtime_error("special"), id(i) {} };
enum Thrown { NOTHING, CUSTOM, INT, DERIVED, YEX, NOMEM, POINTER };
static const char dummy[4] = "p";
static void raise(Thrown t, int id)
{
    switch (t)
    {
    case CUSTOM: EV("throw:custom"); throw Boom{id, "boom, with a text that is too long for a small string"};
    case INT: EV("throw:int"); throw id;
    case DERIVED: EV("throw:derived"); throw Special(id);
    case YEX: EV("throw:library-type"); throw ys::YstringException("mine " + std::to_string(id));
    case NOMEM: EV("throw:bad-alloc"); throw std::bad_alloc();
    case POINTER: EV("throw:pointer"); throw static_cast<const char*>(dummy);
    default: break;
    }
}
// The number of calls of a callback, and when it throws.
struct Plan
{
    Thrown what = NOTHING;
    uint64_t at = ~uint64_t(0);
    uint64_t budget = ~uint64_t(0);
    int id = 0;
    uint64_t calls = 0;
    bool raised = false;
    const char* fn = "";
    std::function<void()> nested;
    // To be called by every callback, with fw disarmed.
    void tick()
    {
        if (raised) FAIL(string("called-after-throw:") + fn, string(fn) + ": a callback was called again after it had thrown");
        if (calls++ > budget) FAIL(string("calls:") + fn, string(fn) + ": more than " + std::to_string(budget) + " calls of a callback");
        if (nested) nested();
        if (calls - 1 == at) { raised = true; raise(what, id); }
    }
};
template <class R> struct Out { R v{}; bool ok = false; bool yex = false; string what; Thrown caught = NOTHING; int id = 0; };
// Calls f, the callbacks of which obey the plan, and judges what was thrown.
template <class F>
static auto run(const char* fn, Plan& plan, const string& ctx, F&& f)
{
    using R = std::decay_t<decltype(f())>;
    Out<R> r;
    auto live = fw::armed_live;
    plan.fn = fn;
    ++fw::evaluations;
    string other;
    {
        std::unique_ptr<R> keep;
        auto outer = fw::cur_fn;
        try { fw::Arm arm(fn); r.v = f(); r.ok = true; }
        catch (const Boom& e) { r.caught = CUSTOM; r.id = e.id; if (e.text.size() != 54 - 1 && e.text.substr(0, 4) != "boom") other = "a damaged exception"; }
        catch (int i) { r.caught = INT; r.id = i; }
        catch (const Special& e) { r.caught = DERIVED; r.id = e.id; }
        catch (const ys::YstringException& e) { r.what = e.what(); r.yex = true; if (r.what.substr(0, 5) == "mine ") { r.caught = YEX; r.id = atoi(r.what.c_str() + 5); } }
        catch (const std::bad_alloc&) { r.caught = NOMEM; r.id = plan.id; }
        catch (const char* p) { r.caught = POINTER; r.id = p == dummy ? plan.id : -1; }
        catch (const std::exception& e) { other = string(typeid(e).name()) + ": " + e.what(); }
        catch (...) { other = "something else"; }
        fw::cur_fn = outer;
    }
    auto text = string(fn) + ctx;
    if (!other.empty()) FAIL(string("exception:") + fn, text + " threw " + other);
    if (plan.raised)
    {
        if (r.ok) FAIL(string("swallowed:") + fn, text + " returned, though a callback threw");
        else if (r.caught != plan.what || r.id != plan.id) FAIL(string("changed:") + fn, text + ": what a callback threw did not reach the caller as it was (" + r.what + ")");
        if (fw::armed_live != live) FAIL(string("leak:") + fn, text + " leaked " + std::to_string(fw::armed_live - live) + " blocks when a callback threw");
    }
    else if (r.caught) FAIL(string("invented:") + fn, text + " threw what no callback had thrown");
    return r;
}
template <class P> static bool same_types(string_view text, P p)
{
    auto a = ys::find_first_where(text, p), b = ys::find_last_where(text, p, text.size() - 1);
    return a.second == 0xE9 && a.first.offset == 0 && b.second == 0xE9 && b.first.offset == 3 && ys::trim_where(text, p) == "t\xC3\xA9 a,b\r\n"
        && ys::trim_start_where(text, p).size() == text.size() - 2 && ys::trim_end_where(text, p).size() == text.size() - 1;
}
static Plan plan(Src& src, uint64_t n)
{
    Plan p;
    if (src.chance(1, 2))
    {
        p.what = Thrown(1 + src.below(6));
        p.id = int(1 + src.below(250));
        p.at = src.chance(1, 4) ? 0 : src.chance(1, 4) && n ? n - 1 : src.below(uint32_t(n) + 2);
    }
    if (src.chance(1, 6))
    {
        EV("nested-calls");
        auto k = src.below(9);
        p.nested = [k]
        {
            static const string text = "\xC3\xA9t\xC3\xA9 a,b\r\nc";
            bool good = true;
            switch (k)
            {
            case 0: good = ys::to_upper(text) == "\xC3\x89T\xC3\x89 A,B\r\nC"; break;
            case 1: good = ys::split(text, string_view(",")).size() == 2; break;
            case 2: good = ys::trim_where(text, [](char32_t c) { return c == 'c' || c == 0xE9; }) == "t\xC3\xA9 a,b\r\n"; break;
            case 3: good = ys::find_last_where(text, [](char32_t c) { return ys::find_first_where(text, [&](char32_t d) { return c == d && c != 'c'; }).second == c && c == ','; }).first.offset == 7; break;
            case 4: good = ys::replace(text, "a", "bb") == "\xC3\xA9t\xC3\xA9 bb,b\r\nc"; break;
            case 5: { ys::TokenIterator it(string_view(text), [](string_view s) { return ys::find_first_newline(s); }); good = it.next() && it.part().size() == 9 && it.next() && it.part() == "c" && !it.next(); break; }
            // The same functions with the same types of callables as outside
            case 6: good = same_types<bool(*)(char32_t)>(text, [](char32_t c) { return c == 0xE9 || c == 'c'; }); break;
            case 7: good = same_types<std::function<bool(char32_t)>>(text, [](char32_t c) { return c == 0xE9 || c == 'c'; }); break;
            case 8:
            {
                std::function<Subrange(string_view)> f = [](string_view s) { return ys::find_first(s, ","); };
                auto v = ys::split_where(text, f);
                ys::TokenIterator it(string_view(text), f);
                good = v.size() == 2 && v[0].size() == 7 && v[1] == "b\r\nc" && it.next() && it.part().size() == 7 && it.token() == "," && it.next() && it.part() == "b\r\nc";
                break;
            }
            }
            if (!good) FAIL("nested", "a call inside a callback gave a wrong result");
        };
    }
    return p;
}

// Predicates --------------------------------------------------------------------
struct Rule
{
    uint32_t salt, density;
    bool counting; uint64_t nth; // true for the nth code point only
    bool operator()(uint32_t c, uint64_t k) const { return counting ? k == nth : fw::Hash().add(uint64_t(c) << 32 | salt).h % 16 < density; }
};
struct Watch { Plan* plan; const Rule* rule; std::u32string* seen; bool ordered = false; };
static bool decide(const Watch& w, char32_t c)
{
    fw::Disarm d;
    w.seen->push_back(c);
    w.plan->tick();
    return (*w.rule)(c, w.plan->calls - 1);
}
static Watch* current; // for plain functions
static bool plain(char32_t c) { return decide(*current, c); }
struct Truth { bool v; operator bool() const { return v; } };
// Calls f with a predicate of some kind.
template <class F> static auto with(int kind, Watch& w, F&& f)
{
#ifdef C32_PLAIN
    if (kind) return f(std::function<bool(char32_t)>([w](char32_t c) { return decide(w, c); }));
#endif
    switch (kind)
    {
    case 0: return f([&w](char32_t c) { return decide(w, c); });
    case 1: EV("predicate:int"); return f([&w](uint32_t c) { return decide(w, c) ? 256 : 0; });
    case 2: EV("predicate:object"); return f([w](char32_t c) { return Truth{decide(w, c)}; });
    case 3: EV("predicate:function"); current = &w; return f(plain);
    case 4: EV("predicate:pointer-result"); return f([&w](char32_t c) -> const void* { return decide(w, c) ? dummy : nullptr; });
    case 5: EV("predicate:by-value-state"); return f([w, own = std::vector<int>(3, 7)](char32_t c) mutable { if (own.size() != 3) FAIL("state", "the state of a predicate was lost (moved from?)"); if (w.ordered && size_t(own[0]++) != w.seen->size() + 7) FAIL("state", "a predicate's own state was lost between two calls"); return decide(w, c); });
    case 6: EV("predicate:widening"); return f([&w](uint64_t c) { if (c >> 32) FAIL("widened", "a predicate was given " + std::to_string(c)); return decide(w, char32_t(c)); });
    default: { std::function<bool(char32_t)> g = [w](char32_t c) { return decide(w, c); }; return f(std::move(g)); }
    }
}
static u32string firsts(const u32string& s) { return s.substr(0, 40); }
static void predicates(Src& src)
{
    string s = gen::utf8(src);
    size_t bad = NONE;
    auto v = model::parse(s);
    if (src.chance(1, 6))
    {
        // A byte that can't be part of anything, on a boundary.
        bad = gen::boundary(src, v, s.size());
        s.insert(bad, 1, src.chance(1, 2) ? '\xFF' : '\xFE');
        v = model::parse(s);
    }
    if (s.size() > 8000) EV("long-text");
    Rule rule{src.u32(), src.chance(1, 4) ? 0 : src.chance(1, 4) ? 16 : src.chance(1, 2) ? src.below(17) : src.chance(1, 2) ? 1u : 15u, src.chance(1, 5), src.below(uint32_t(v.size()) + 2)};
    auto off = gen::boundary(src, v, s.size());
    if (src.chance(1, 8)) off = s.size() + src.below(3);
    In is(s);
    auto kind = int(src.below(8));
    auto base = plan(src, v.size());
    auto show = [&](const char* extra = "") { return "(" + esc(s) + ", predicate " + std::to_string(kind) + (rule.counting ? " true at call " + std::to_string(rule.nth) : " of density " + std::to_string(rule.density))
        + (base.what ? ", throwing at call " + std::to_string(base.at) : "") + extra + ")"; };

    // First and last: once for each code point, in order, up to the result.
    for (int back = 0; back < 2; ++back)
    {
        if (!back && off > s.size()) continue;
        auto fn = back ? "find_last_where" : "find_first_where";
        size_t from = std::min(off, s.size());
        u32string expected;
        Cp found = none_cp();
        bool threw = false, raises = false;
        auto i = back ? model::ending_by(v, from) : model::starting_before(v, from);
        for (; back ? i > 0 : i < v.size(); back ? --i : ++i)
        {
            auto& c = v[back ? i - 1 : i];
            if (!c.ok) { threw = true; break; }
            expected += char32_t(c.c);
            if (base.what && expected.size() - 1 == base.at) { raises = true; break; }
            if (rule(c.c, expected.size() - 1)) { found = c; break; }
        }
        auto p = base;
        p.budget = v.size() + 4;
        u32string seen;
        Watch w{&p, &rule, &seen, true};
        auto ctx = show((", from " + std::to_string(off)).c_str());
        auto r = run(fn, p, ctx, [&] { return with(kind, w, [&](auto&& pred) {
            return back ? ys::find_last_where(is.sv(), std::forward<decltype(pred)>(pred), off) : ys::find_first_where(is.sv(), std::forward<decltype(pred)>(pred), off); }); });
        if (seen != expected) FAIL(string("consulted:") + fn, string(fn) + ctx + ": the predicate was given " + esc32(firsts(seen)) + " (" + std::to_string(seen.size()) + "), expected " + esc32(firsts(expected)) + " (" + std::to_string(expected.size()) + ")");
        if (raises) { if (p.at == 0) EV("throw-at-first-call"); if (expected.size() == v.size()) EV("throw-at-last-call"); continue; }
        if (base.what && base.at >= expected.size() && found.ok) EV("throw-after-result");
        if (p.raised) continue;
        if (threw != r.yex) { FAIL(string("throw:") + fn, string(fn) + ctx + (threw ? " didn't throw" : " threw ") + r.what); continue; }
        if (threw) { EV("malformed-before-result"); continue; }
        if (!r.ok) continue;
        bool good = found.ok ? r.v.first.offset == found.off && r.v.first.length == found.len && r.v.second == found.c : r.v.first.length == 0 && r.v.second == ys::INVALID_CHAR;
        if (!good) FAIL(string("found:") + fn, string(fn) + ctx + " = " + str(r.v.first) + ", expected " + (found.ok ? str(Range{found.off, found.len}) : string("nothing")));
        if (!found.ok) EV("no-result"); else if (expected.size() == 1) EV("result-at-first"); else if (found.end() == s.size() || found.off == 0) EV("result-at-last");
        if (found.ok && bad != NONE) EV("malformed-after-result");
        if (rule.counting) EV("counting-predicate");
    }
    // Trimming, by a predicate that depends on the code point only.
    rule.counting = false;
    for (int what = 0; what < 3; ++what)
    {
        auto fn = what == 0 ? "trim_start_where" : what == 1 ? "trim_end_where" : "trim_where";
        auto p = base;
        p.budget = 3 * v.size() + 16;
        u32string seen;
        Watch w{&p, &rule, &seen};
        auto ctx = show();
        auto r = run(fn, p, ctx, [&] { return with(kind, w, [&](auto&& pred) -> string_view {
            return what == 0 ? ys::trim_start_where(is.sv(), pred) : what == 1 ? ys::trim_end_where(is.sv(), pred) : ys::trim_where(is.sv(), pred); }); });
        std::vector<uint32_t> have;
        for (auto& c : v) have.push_back(c.ok ? c.c : 0xFFFFFFFF);
        std::sort(have.begin(), have.end());
        for (auto c : seen) if (c == 0xFFFFFFFF || !std::binary_search(have.begin(), have.end(), uint32_t(c))) { FAIL(string("foreign:") + fn, string(fn) + ctx + ": the predicate was given U+" + hexs(c) + ", which isn't in the text"); break; }
        if (p.raised || !r.ok) { if (!p.raised && bad == NONE) FAIL(string("throw:") + fn, string(fn) + ctx + " threw " + r.what); continue; }
        if (bad != NONE) continue;
        size_t a = 0, b = v.size();
        if (what != 1) while (a < b && rule(v[a].c, 0)) ++a;
        if (what != 0) while (a < b && rule(v[b - 1].c, 0)) --b;
        Range e = a < b ? Range{v[a].off, v[b - 1].end() - v[a].off} : Range{0, 0};
        auto o = is.offset_of(fn, r.v);
        if (e.len ? o != e.off || r.v.size() != e.len : !r.v.empty()) FAIL(string("trimmed:") + fn, string(fn) + ctx + " = " + esc(r.v) + ", expected " + str(e));
    }
    fw::note(fw::Hash().add(s).add(rule.salt).add(rule.density).add(off).add(uint64_t(base.at)).h, !s.empty());
    if (src.chance(1, 10)) fw::sample("predicates" + show());
}

// Token finders -------------------------------------------------------------------
// Where the tokens are, depending on the number of the call or the rest.
struct Grammar
{
    int kind; uint32_t salt; string sep;
    Range operator()(size_t k, string_view rest) const
    {
        switch (kind)
        {
        case 0: { auto x = model::find_first(rest, sep, 0); return {x, x == NONE ? 0 : sep.size()}; }
        case 1: // fields of width 0, 1, 2 ..., separated by one byte
        {
            auto width = (k * 7 + salt) % 5;
            return rest.size() > width ? Range{width, 1} : Range{0, 0};
        }
        default: // a token's place depends on the first byte and the size of the rest
        {
            if (rest.empty()) return {0, 0};
            auto h = fw::Hash().add(uint64_t(uint8_t(rest[0])) << 32 | salt).add(rest.size()).h;
            if (h % 8 == 0) return {0, 0};
            auto at = (h >> 8) % std::min<size_t>(rest.size(), 6);
            return {at, std::min<size_t>(1 + (h >> 32) % 3, rest.size() - at)};
        }
        }
    }
};
static void finders(Src& src)
{
    auto s = src.chance(1, 2) ? gen::bytes(src) : gen::utf8(src);
    Grammar g{int(src.below(3)), src.u32() & 0xFFFF, gen::byte_pattern(src, s)};
    if (g.kind == 1) EV("finder:widths");
    if (g.kind == 2) EV("finder:context");
    In is(s);
    // The model
    std::vector<Range> parts, seps;
    for (size_t pos = 0, k = 0;; ++k)
    {
        auto t = g(k, string_view(s).substr(pos));
        if (!t.len) { parts.push_back({pos, s.size() - pos}); break; }
        parts.push_back({pos, t.off});
        seps.push_back({pos + t.off, t.len});
        pos += t.off + t.len;
    }
    auto base = plan(src, parts.size());
    auto show = [&](const string& extra = "") { return "(" + esc(s) + ", finder " + std::to_string(g.kind) + " " + esc(g.sep, 20) + std::to_string(g.salt) + (base.what ? ", throwing at call " + std::to_string(base.at) : "") + extra + ")"; };
    auto miss = src.below(3);
    // A finder: its views must be the rests, one after the other.
    struct State { Plan* p; size_t pos = 0, k = 0; bool done = false; };
    auto find = [&](State& st, string_view v, const char* fn)
    {
        fw::Disarm d;
        auto o = v.empty() && st.pos == s.size() ? st.pos : is.offset_of(fn, v);
        if (o != st.pos || v.size() != s.size() - st.pos || st.done) FAIL(string("rest:") + fn, string(fn) + show() + ": the finder was given " + esc(v, 60) + ", expected the rest at " + std::to_string(st.pos));
        st.p->tick();
        auto t = g(st.k++, v);
        if (!t.len) { st.done = true; return miss == 0 ? Subrange() : miss == 1 ? Subrange(v.size(), 0) : Subrange(0, 0); }
        st.pos += t.off + t.len;
        return Subrange(t.off, t.len);
    };
    for (int i = 0; i < 3; ++i)
    {
        size_t limit = i == 0 ? SIZE_MAX : src.below(uint32_t(std::min<size_t>(parts.size(), 30)) + 2);
        bool ignore = i == 1 ? src.chance(1, 2) : i == 2, by_value = src.chance(1, 2);
        if (by_value) EV("finder:by-value");
        auto p = base;
        p.budget = parts.size() + 4;
        State st{&p};
        auto fn = "split_where";
        auto ctx = show(" limit " + std::to_string(limit) + (ignore ? " ignoring empty parts" : ""));
        auto r = run(fn, p, ctx, [&] {
            // State kept by reference, by value in a function object, and in a std::function
            struct Own { decltype(find)* f; State st; const char* fn; Subrange operator()(string_view v) { return (*f)(st, v, fn); } };
            if (by_value) return ys::split_where(is.sv(), Own{&find, st, fn}, {limit, ignore});
            return i == 2 ? ys::split_where(is.sv(), std::function<Subrange(string_view)>([&](string_view v) { return find(st, v, fn); }), {limit, ignore})
                          : ys::split_where(is.sv(), [&, own = std::vector<int>(3)](string_view v) { if (own.size() != 3) FAIL("state", "the state of a finder was lost"); return find(st, v, fn); }, {limit, ignore}); });
        if (p.raised) continue;
        if (!r.ok) { FAIL("throw:split_where", fn + ctx + " threw " + r.what); continue; }
        std::vector<Range> e;
        size_t pos = 0, k = 0;
        while (e.size() < limit && k < seps.size()) { if (!ignore || parts[k].len) e.push_back(parts[k]); pos = seps[k++].end(); }
        if (!ignore || pos != s.size()) e.push_back({pos, s.size() - pos});
        bool good = r.v.size() == e.size();
        for (size_t q = 0; good && q < e.size(); ++q) good = r.v[q].size() == e[q].len && (!e[q].len || is.offset_of(fn, r.v[q]) == e[q].off);
        if (!good) FAIL("parts:split_where", fn + ctx + ": wrong parts (" + std::to_string(r.v.size()) + ", expected " + std::to_string(e.size()) + ")");
    }
    // The iterator itself: copied, moved, and used on after the finder threw.
    auto p = base;
    p.budget = 2 * parts.size() + 8;
    p.fn = "TokenIterator";
    State st{&p};
    struct Fn { decltype(find)* f; State* st; std::vector<int> own = {1, 2, 3}; Subrange operator()(string_view v) { if (own.size() != 3) FAIL("state", "the state of a finder was lost"); return (*f)(*st, v, "TokenIterator"); } };
    using It = ys::TokenIterator<Fn>;
    auto it = std::make_unique<It>(is.sv(), Fn{&find, &st});
    auto check = [&](const It& x, size_t done, const string& when)
    {
        bool has = done && done <= seps.size();
        auto same = [&](string_view v, const Range& e) { return v.size() == e.len && (!e.len || is.offset_of("TokenIterator", v) == e.off); };
        Range part = done ? parts[std::min(done, parts.size()) - 1] : Range{0, 0}, tok = has ? seps[done - 1] : Range{0, 0};
        Range rest = !done ? Range{0, s.size()} : has ? Range{tok.end(), s.size() - tok.end()} : Range{0, 0};
        Plan none;
        auto ctx = show(" " + when + ", after " + std::to_string(done) + " parts");
        auto r = run("TokenIterator", none, ctx, [&] { return same(x.part(), part) && same(x.token(), tok) && same(x.remainder(), rest) && bool(x) == has; });
        if (r.ok && !r.v) FAIL("iterator", "TokenIterator" + ctx + ": wrong part, token, remainder or state");
    };
    size_t done = 0;
    for (uint64_t round = 0; round < parts.size() + 4; ++round)
    {
        if (done < 3 || done + 2 > parts.size()) check(*it, done, "before next");
        if (src.chance(1, 8)) { auto copy = std::make_unique<It>(*it); it = std::move(copy); EV("iterator-copied"); }
        if (src.chance(1, 8)) { auto moved = std::make_unique<It>(std::move(*it)); it = std::move(moved); EV("iterator-moved"); }
        auto ctx = show(" next number " + std::to_string(done));
        auto before = p.raised;
        auto r = run("TokenIterator", p, ctx, [&] { return it->next(); });
        if (p.raised && !before)
        {
            // The step failed, and changed nothing: it can be repeated.
            check(*it, done, "after the finder threw");
            p.raised = false; p.what = NOTHING;
            EV("iterator-kept-after-throw");
            continue;
        }
        if (!r.ok) return;
        if (r.v != (done < parts.size())) { FAIL("next", "TokenIterator::next()" + ctx + " returned " + (r.v ? "true" : "false")); return; }
        if (r.v) ++done;
    }
    if (done != parts.size()) FAIL("next", "TokenIterator" + show() + " gave " + std::to_string(done) + " parts");
    fw::note(fw::Hash().add(s).add(g.salt).add(uint64_t(g.kind)).add(g.sep).add(uint64_t(base.at)).h, !s.empty());
    if (src.chance(1, 10)) fw::sample("finders" + show());
}

// Iterators -----------------------------------------------------------------------
// Single pass: what was reached by one copy has gone for the others.
struct Stream { const std::vector<string>* v; size_t pos = 0; Plan* p; };
template <int KIND> struct Value; // the value types
template <> struct Value<0> { using type = string; static type get(const string& s) { return s; } };                // temporaries
template <> struct Value<1> { using type = const string&; static type get(const string& s) { return s; } };
template <> struct Value<2> { using type = const char*; static type get(const string& s) { return s.c_str(); } };
template <> struct Value<3> { using type = string_view; static type get(const string& s) { return s; } };
struct Convertible { string own; operator string_view() const { return own; } };
template <> struct Value<4> { using type = Convertible; static type get(const string& s) { return {s}; } };
template <int KIND> struct InputIt
{
    using iterator_category = std::input_iterator_tag; using value_type = std::decay_t<typename Value<KIND>::type>; using difference_type = ptrdiff_t; using pointer = const value_type*; using reference = typename Value<KIND>::type;
    Stream* s = nullptr; size_t at = 0;
    reference operator*() const { fw::Disarm d; check(); s->p->tick(); return Value<KIND>::get((*s->v)[at]); }
    InputIt& operator++() { fw::Disarm d; check(); s->p->tick(); at = ++s->pos; return *this; }
    struct Proxy { string own; const string& operator*() const { return own; } };
    Proxy operator++(int) { Proxy r{(check(), (*s->v)[at])}; ++*this; return r; }
    bool done() const { return !s || at == s->v->size(); }
    friend bool operator==(const InputIt& a, const InputIt& b) { fw::Disarm d; if (a.s) a.s->p->tick(); return a.done() == b.done(); }
    friend bool operator!=(const InputIt& a, const InputIt& b) { return !(a == b); }
private:
    void check() const
    {
        if (done()) FAIL("join:past-the-end", "join used an iterator at the end of the range");
        if (at != s->pos) FAIL("join:multi-pass", "join went twice over a single-pass range");
    }
};
template <int KIND> static void join_stream(const std::vector<string>& v, const In& delim, const string& e, Plan base, const string& ctx)
{
    auto p = base;
    p.budget = 8 * v.size() + 16;
    Stream st{&v, 0, &p};
    auto r = run("join(single-pass)", p, ctx, [&] { return ys::join(InputIt<KIND>{&st, 0}, InputIt<KIND>{}, delim.sv()); });
    if (p.raised) { EV("join:throw"); return; }
    if (!r.ok) FAIL("throw:join", "join of value type " + std::to_string(KIND) + ctx + " threw " + r.what);
    else if (r.v != e) FAIL("value:join", "join of value type " + std::to_string(KIND) + ctx + " = " + esc(r.v) + ", expected " + esc(e));
    else EV("join:single-pass");
}
static void joins(Src& src)
{
    std::vector<string> v;
    for (auto n = src.chance(1, 10) ? src.below(60) : src.below(6); n; --n)
        v.push_back(src.chance(1, 5) ? string() : src.chance(1, 30) ? string(100 + src.below(2000), char('a' + n % 26)) : src.chance(1, 2) ? gen::bytes(src) : model::enc(gen::list(src, U"ab")));
    auto delim = src.chance(1, 4) ? string() : gen::byte_pattern(src, v.empty() ? string("ab") : v[0]).substr(0, 50);
    In id(delim);
    string e, ce;
    for (size_t i = 0; i < v.size(); ++i) { if (i) { e += delim; ce += delim; } e += v[i]; ce += v[i].c_str(); }
    auto p = plan(src, 3 * v.size());
    auto ctx = "(" + std::to_string(v.size()) + " strings of " + std::to_string(e.size()) + " bytes in all, " + esc(delim) + (p.what ? ", throwing at call " + std::to_string(p.at) : "") + ")";
    auto kind = src.below(11);
    auto whole = [&](const char* fn, auto&& f, const string& expected)
    {
        Plan none;
        auto r = run(fn, none, ctx, f);
        if (!r.ok) FAIL("throw:join", string(fn) + ctx + " threw " + r.what);
        else if (r.v != expected) FAIL("value:join", string(fn) + ctx + " = " + esc(r.v) + ", expected " + esc(expected));
    };
#ifdef C32_PLAIN
    whole("join(vector)", [&] { return ys::join(v.begin(), v.end(), id.sv()); }, e);
    return;
#else
    switch (kind)
    {
    case 0: EV("join:temporaries"); join_stream<0>(v, id, e, p, ctx); break;
    case 1: join_stream<1>(v, id, e, p, ctx); break;
    case 2: EV("join:c-strings"); join_stream<2>(v, id, ce, p, ctx); break;
    case 3: join_stream<3>(v, id, e, p, ctx); break;
    case 4: EV("join:converting"); join_stream<4>(v, id, e, p, ctx); break;
    case 5: { std::forward_list<string> l(v.begin(), v.end()); whole("join(forward_list)", [&] { return ys::join(l.begin(), l.end(), id.sv()); }, e); break; }
    case 6: { std::deque<string_view> l(v.begin(), v.end()); whole("join(deque)", [&] { return ys::join(l.cbegin(), l.cend(), id.sv()); }, e); break; }
    case 7: { std::vector<const char*> l; for (auto& x : v) l.push_back(x.c_str()); whole("join(c-strings)", [&] { return ys::join(l.data(), l.data() + l.size(), id.sv()); }, ce); break; }
    case 8: { auto l = v; whole("join(vector)", [&] { return ys::join(l.begin(), l.end(), id.sv()); }, e); if (l != v) FAIL("join:changed", "join" + ctx + " changed the strings it joined"); EV("join:own-strings"); break; }
    case 9: { std::list<string> l(v.begin(), v.end()); whole("join(list)", [&] { return ys::join(l.begin(), l.end(), id.sv()); }, e); if (!std::equal(l.begin(), l.end(), v.begin(), v.end())) FAIL("join:changed", "join" + ctx + " changed the strings it joined"); break; }
    default:
        whole("join(reverse)", [&] { return ys::join(v.rbegin(), v.rend(), id.sv()); }, [&] { string r; for (size_t i = v.size(); i-- > 0;) { r += v[i]; if (i) r += delim; } return r; }());
    }
#endif
    auto h = fw::Hash().add(e).add(delim).add(uint64_t(kind)).add(p.at);
    fw::note(h.h, !v.empty());
    if (src.chance(1, 10)) fw::sample("join" + ctx);
}

// A checked bidirectional iterator over bytes. It only moves and is read inside
// the range, and may throw.
template <class C> struct ByteIt
{
    using iterator_category = std::bidirectional_iterator_tag; using value_type = C; using difference_type = ptrdiff_t; using pointer = const C*; using reference = C;
    const string* s = nullptr; size_t at = 0, first = 0, last = 0; Plan* p = nullptr;
    C operator*() const { fw::Disarm d; if (at < first || at >= last) FAIL("iterator:read-outside", string(p->fn) + " read " + (at < first ? "before" : "at or after the end of") + " the range, in " + esc(*s)); p->tick(); return C((*s)[at]); }
    ByteIt& operator++() { fw::Disarm d; if (at >= last) FAIL("iterator:past-end", string(p->fn) + " moved past the end, in " + esc(*s)); p->tick(); ++at; return *this; }
    ByteIt& operator--() { fw::Disarm d; if (at <= first) FAIL("iterator:before-begin", string(p->fn) + " moved in front of the start, in " + esc(*s)); p->tick(); --at; return *this; }
    ByteIt operator++(int) { auto r = *this; ++*this; return r; }
    ByteIt operator--(int) { auto r = *this; --*this; return r; }
    friend bool operator==(const ByteIt& a, const ByteIt& b) { return a.at == b.at; }
    friend bool operator!=(const ByteIt& a, const ByteIt& b) { return a.at != b.at; }
};
template <class C> static void bytes_as(Src& src, const string& s, const Plan& base)
{
    size_t a = src.chance(1, 2) ? 0 : src.below(uint32_t(s.size()) + 1), b = src.chance(1, 2) ? s.size() : a + src.below(uint32_t(s.size() - a) + 1);
    size_t at = src.chance(1, 3) ? a : src.chance(1, 2) ? b : a + src.below(uint32_t(b - a) + 1);
    auto ctx = "(" + esc(s) + ", " + std::to_string(a) + " to " + std::to_string(b) + ", at " + std::to_string(at) + (base.what ? ", throwing at call " + std::to_string(base.at) : "") + ")";
    using It = ByteIt<C>;
    string_view view(s);
    for (int k = 0; k < 4; ++k)
    {
        static const char* const names[] = {"decode_next", "decode_prev", "skip_next", "skip_prev"};
        auto p = base;
        p.budget = 4 * (b - a) + 64;
        It first{&s, a, a, b, &p}, last{&s, b, a, b, &p}, it{&s, at, a, b, &p};
        struct R { char32_t c = 0; bool moved = false; size_t at = 0; };
        auto r = run(names[k], p, ctx, [&] {
            R q;
            switch (k)
            {
            case 0: q.c = ys::decode_next(it, last); break;
            case 1: q.c = ys::decode_prev(first, it); break;
            case 2: q.moved = ys::skip_next(it, last); break;
            default: q.moved = ys::skip_prev(first, it);
            }
            q.at = it.at;
            return q; });
        if (p.raised) { EV("checked-iterator:throw"); continue; }
        if (!r.ok) { FAIL(string("throw:") + names[k], names[k] + ctx + " threw " + r.what); continue; }
        // The same by pointers to const char
        auto lo = s.data() + a, hi = s.data() + b, ptr = s.data() + at;
        R e;
        switch (k)
        {
        case 0: e.c = ys::decode_next(ptr, hi); break;
        case 1: e.c = ys::decode_prev(lo, ptr); break;
        case 2: e.moved = ys::skip_next(ptr, hi); break;
        default: e.moved = ys::skip_prev(lo, ptr);
        }
        e.at = size_t(ptr - s.data());
        if (r.v.c != e.c || r.v.at != e.at || r.v.moved != e.moved) FAIL(string("differs:") + names[k], names[k] + ctx + " differs from the same with pointers: at " + std::to_string(r.v.at) + " U+" + hexs(r.v.c) + ", " + std::to_string(e.at) + " U+" + hexs(e.c));
        // ... and by the model, where it says something.
        if (k == 0 && at < b)
        {
            auto m = model::step(view.substr(0, b), at);
            if (m.ok ? r.v.c != m.c || r.v.at != m.end() : r.v.c != ys::INVALID_CHAR || r.v.at != at) FAIL("value:decode_next", names[k] + ctx + " = U+" + hexs(r.v.c) + " at " + std::to_string(r.v.at));
            if (!m.ok) EV("checked-iterator:malformed");
        }
        if (k == 2 && (at < b ? !r.v.moved || r.v.at != model::step(view.substr(0, b), at).end() : r.v.moved || r.v.at != at)) FAIL("value:skip_next", names[k] + ctx + " moved to " + std::to_string(r.v.at));
        if (k == 3 && (at > a ? !r.v.moved || r.v.at != model::skip_back(view, a, at).pos : r.v.moved || r.v.at != at)) FAIL("value:skip_prev", names[k] + ctx + " moved to " + std::to_string(r.v.at));
        if (k == 1 && at > a)
        {
            auto m = model::step_back(view.substr(a, at - a), at - a);
            if (m.ok ? r.v.c != m.c || r.v.at != a + m.off : r.v.c != ys::INVALID_CHAR || r.v.at != at) FAIL("value:decode_prev", names[k] + ctx + " = U+" + hexs(r.v.c) + " at " + std::to_string(r.v.at));
        }
    }
    // Throwing at the end of the text, or stepping through it
    auto p = base;
    p.budget = SIZE_MAX;
    It first{&s, a, a, b, &p}, last{&s, b, a, b, &p}, it{&s, at, a, b, &p};
    char32_t c = 0;
    bool back = src.chance(1, 2);
    auto r = run(back ? "safe_decode_prev" : "safe_decode_next", p, ctx, [&] { return back ? ys::safe_decode_prev(first, it, c) : ys::safe_decode_next(it, last, c); });
    if (p.raised) return;
    auto m = back ? model::step_back(view.substr(a, at - a), at - a) : at < b ? model::step(view.substr(0, b), at) : model::Cp{0, 0, 0, false};
    bool end = back ? at == a : at == b;
    if (end ? !r.ok || r.v : m.ok ? !r.ok || !r.v || c != m.c : !r.yex) FAIL("safe_decode", string(back ? "safe_decode_prev" : "safe_decode_next") + ctx + " = U+" + hexs(c) + " " + r.what);
}
static void decoding(Src& src)
{
#ifdef C32_PLAIN
    return;
#else
    auto s = gen::bytes(src);
    if (s.size() > 300 && src.chance(9, 10)) s.resize(300);
    auto base = plan(src, 8);
    switch (src.below(5))
    {
    case 0: bytes_as<char>(src, s, base); break;
    case 1: EV("unsigned-bytes"); bytes_as<unsigned char>(src, s, base); break;
    case 2: bytes_as<signed char>(src, s, base); break;
    case 3: EV("char8"); bytes_as<char8_t>(src, s, base); break;
    default: // whole texts, in containers
    {
        std::list<char> l(s.begin(), s.end());
        std::vector<uint8_t> u(s.begin(), s.end());
        std::basic_string<char8_t> e(s.begin(), s.end());
        std::deque<signed char> q(s.begin(), s.end());
        auto all = [&](auto first, auto last)
        {
            std::vector<size_t> r;
            Plan none;
            for (auto it = first; it != last;)
            {
                auto c = CALL("decode_next(container)", ys::decode_next(it, last));
                r.push_back(c.v);
                r.push_back(size_t(std::distance(first, it)));
                if (c.v == ys::INVALID_CHAR) { (void)CALL("skip_next(container)", ys::skip_next(it, last)); r.push_back(size_t(std::distance(first, it))); }
            }
            for (auto it = last; it != first;)
            {
                auto c = CALL("decode_prev(container)", ys::decode_prev(first, it));
                r.push_back(c.v);
                r.push_back(size_t(std::distance(first, it)));
                if (c.v == ys::INVALID_CHAR) { (void)CALL("skip_prev(container)", ys::skip_prev(first, it)); r.push_back(size_t(std::distance(first, it))); }
            }
            return r;
        };
        if (s.size() > 300) s.resize(300), l.resize(300), u.resize(300), e.resize(300), q.resize(300);
        auto x = all(s.data(), s.data() + s.size());
        if (all(l.begin(), l.end()) != x) FAIL("containers", "decoding a list of char differs from decoding " + esc(s));
        if (all(u.cbegin(), u.cend()) != x) FAIL("containers", "decoding unsigned bytes differs from decoding " + esc(s));
        if (all(e.begin(), e.end()) != x) FAIL("containers", "decoding char8_t differs from decoding " + esc(s));
        if (all(q.begin(), q.end()) != x) FAIL("containers", "decoding signed char differs from decoding " + esc(s));
    }
    }
    fw::note(fw::Hash().add(s).add(base.at).h, !s.empty());
#endif
}
void prop_case(Src& src)
{
    switch (src.below(8))
    {
    case 0: case 1: case 2: predicates(src); break;
    case 3: case 4: finders(src); break;
    case 5: joins(src); break;
    default: decoding(src);
    }
}
uint64_t prop_exhaustive_count() { return 0; }
void prop_exhaustive(uint64_t) {}
