#include "../apifw.hpp"
const char* const PROP_ID = "C27";
void prop_init()
{
    uni::load();
    for (auto n : {"bad-alloc", "bad-alloc-persistent", "later-allocation-failed", "failed-without-memory-fault", "exception-turned-bad-alloc", "normal-after-failure", "append-failed", "append-in-capacity", "in-place-repair-failed",
                   "view-failed", "iterator-failed", "mutating-invalid-code-point"}) fw::require(n);
}
static void one(size_t op, apifw::Placed& p, size_t max_fail)
{
    auto& o = api::ops()[op];
    auto ctx = [&](uint64_t k) { return string(o.name) + ", allocation " + std::to_string(k) + " failing, with " + api::show(*p.v.a, apifw::esc2); };
    auto live = fw::armed_live;
    auto normal = apifw::run(op, p);
    auto leak = [&](uint64_t k) { if (fw::armed_live != live) FAIL(string("leak:") + o.name, std::to_string(fw::armed_live - live) + " allocation(s) leaked by " + ctx(k)); };
    if (fw::armed_live != live) { live = fw::armed_live; normal = apifw::run(op, p); } // (not something which is allocated once for all?)
    leak(0);
    if (normal.kind == fw::YEX) EV("failed-without-memory-fault");
    string_view name = o.name;
    if (name.substr(0, 14) == "append(string&") { if (normal.kind == fw::YEX) EV("mutating-invalid-code-point"); if (normal.allocs == 0 && name.size() > 20) EV("append-in-capacity"); }
    if (normal.kind == fw::YEX && (name.substr(0, 3) == "pop" || name.substr(0, 8) == "unescape")) EV("view-failed");
    if (normal.kind == fw::YEX && name.substr(0, 5) == "safe_") EV("iterator-failed");
    // Every allocation fails in turn; in large cases the first and the last ones.
    for (uint64_t k = 1; k <= normal.allocs; ++k)
    {
        if (k > max_fail / 2 && k + max_fail / 2 <= normal.allocs) continue;
        for (bool all : {false, true})
        {
            if (all && normal.kind == fw::VAL && k > 2) continue;
            fw::fail_all = all;
            auto r = apifw::run(op, p, k);
            fw::fail_all = false;
            if (!fw::fail_fired)
            {
                if (!r.same(normal)) FAIL(string("unstable:") + o.name, "a repeated call behaves differently: " + ctx(k));
                continue;
            }
            if (r.kind == fw::BAD_ALLOC)
            {
                EV("bad-alloc");
                if (all) EV("bad-alloc-persistent");
                if (k > 1) EV("later-allocation-failed");
                if (normal.kind == fw::YEX) EV("exception-turned-bad-alloc");
                if (name.substr(0, 14) == "append(string&") EV("append-failed");
                if (name == "replace_invalid_utf8(string&)") EV("in-place-repair-failed");
            }
            else if (r.kind == fw::YEX && normal.kind == fw::VAL)
                FAIL(string("masked:") + o.name, "a memory failure surfaced as a YstringException: " + ctx(k));
            else if (r.kind == fw::VAL && !r.same(normal))
                FAIL(string("swallowed:") + o.name, "a memory failure changed the result: " + ctx(k));
            leak(k);
        }
    }
    if (normal.allocs)
    {
        auto again = apifw::run(op, p);
        leak(0);
        if (!again.same(normal)) FAIL(string("after-failure:") + o.name, "the call behaves differently after a failed one: " + ctx(0));
        EV("normal-after-failure");
    }
    p.s.check(); p.c.check(); p.to.check();
}
static void judge(const api::Args& a, size_t first, size_t count, size_t max_fail)
{
    apifw::Placed p(a);
    auto n = api::ops().size();
    for (size_t k = 0; k < count; ++k) one((first + k) % n, p, max_fail);
    fw::note(fw::Hash().add(a.s).add(a.c).add(a.to).add(a.off).add(a.cp).add(uint64_t(a.i)).add(uint64_t(a.j)).h, !a.s.empty());
}
void prop_case(Src& src)
{
    auto n = api::ops().size();
    auto first = src.below(uint32_t(n));
    auto a = gen::args(src);
    bool big = a.s.size() > 300;
    // Results must outgrow std::string's inner buffer, often.
    if (!big && src.chance(1, 3)) { a.s = string(src.below(20), 'q') + a.s + string(src.below(3) * 10, '.'); a.off = std::min(a.off, a.s.size()); }
    judge(a, first, big ? 10 : n, 12);
    if (src.chance(1, 6)) fw::sample(api::show(a, apifw::esc2));
}
// Appending: all lengths of the string up to 70, all lengths of the code point.
uint64_t prop_exhaustive_count() { return 71; }
void prop_exhaustive(uint64_t i)
{
    uint64_t n = 0;
    for (uint32_t c : {0x41u, 0xE5u, 0x20ACu, 0x1F600u, 0x110000u, 0xFFFFFFFFu})
        for (size_t off = 0; off < 6; ++off)
        {
            api::Args a;
            a.s = string(i, 'a');
            a.cp = c;
            a.off = std::min<size_t>(off, i);
            apifw::Placed p(a);
            for (size_t k = 0; k < 3; ++k) { one(k, p, 10); ++n; }
            // (the third one is only interesting with malformed text)
            a.s += "\xC3";
            apifw::Placed q(a);
            for (size_t k = 0; k < 3; ++k) { one(k, q, 10); ++n; }
        }
    fw::exhaustive_points(n);
}
