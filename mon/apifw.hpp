// Running api.hpp's operations under the framework.
#pragma once
#include <memory>
#include "argsgen.hpp"
#include "common.hpp"

namespace apifw
{
    inline string esc2(string_view s, size_t n) { return fw::esc(s, n); }
    // Inputs placed in exact blocks with poisoned surroundings.
    struct Placed
    {
        In s, c, to;
        In32 list;
        ys::CodepointSet set;
        api::View v;
        explicit Placed(const api::Args& a, bool null_if_empty = false)
            : s(a.s, null_if_empty), c(a.c, null_if_empty), to(a.to), list(a.list)
        {
            api::make_set(a, set);
            v = {s, c, to, list, &set, &a};
        }
    };
    struct Outcome
    {
        fw::Kind kind = fw::VAL;
        string out;
        size_t result_bytes = 0;
        uint64_t steps = 0, allocs = 0, bytes = 0;
        bool same(const Outcome& o) const { return kind == o.kind && out == o.out; }
    };
    inline const char* now = "";
    inline void (*on_enter)() = nullptr; // called around each call of the library
    inline void (*on_leave)() = nullptr;
    // fail_at: which allocation fails (0: none)
    inline Outcome run(size_t op, const Placed& p, uint64_t fail_at = 0)
    {
        static std::vector<fw::CallCounters> counters = [] { std::vector<fw::CallCounters> r; for (auto& o : api::ops()) r.push_back(fw::call_counters(o.name)); return r; }();
        auto& o = api::ops()[op];
        Outcome r;
        api::Sink sink;
        sink.enter = [] { if (on_enter) on_enter(); fw::steps = 0; fw::armed = true; };
        sink.leave = [] { fw::armed = false; if (on_leave) on_leave(); fw::total_steps += fw::steps; if (fw::steps > fw::max_steps) fw::max_steps = fw::steps; };
        now = o.name;
        fw::cur_fn = o.name;
        ++fw::evaluations;
        fw::alloc_count = fw::alloc_bytes = 0;
        fw::fail_at = fail_at;
        fw::fail_fired = false;
        fw::steps = 0;
        try { o.f(p.v, sink); }
        catch (...) { r.kind = fw::classify_exception(o.name); }
        fw::fail_at = 0;
        fw::cur_fn = "(harness)";
        r.steps = fw::steps; r.allocs = fw::alloc_count; r.bytes = fw::alloc_bytes;
        auto& c = counters[op];
        ++(r.kind == fw::VAL ? c.val : r.kind == fw::YEX ? c.yex : c.bad).n;
        auto ctx = [&] { return string(o.name) + " with " + api::show(*p.v.a, esc2); };
        if (sink.outside) FAIL(string("outside:") + o.name, string(sink.outside) + " is not inside the text: " + ctx());
        if (sink.changed) FAIL(string("changed:") + o.name, string("a failed call changed its ") + sink.changed + ": " + ctx());
        if (r.kind == fw::VAL) { r.out.swap(sink.out); r.result_bytes = sink.result_bytes; }
        return r;
    }
}
