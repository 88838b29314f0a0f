// Arguments for api.hpp, drawn from the tape.
#pragma once
#include "api.hpp"
#include "gen.hpp"
#include "esc_model.hpp"

namespace gen
{
    enum Domain { HOSTILE, VALID, ANY };
    inline api::Args args(Src& s, Domain d = ANY)
    {
        api::Args a;
        bool hostile = d == HOSTILE || (d == ANY && s.chance(1, 2));
        u32string t;
        auto f = Flavor(s.below(7));
        if (hostile) { a.s = s.chance(1, 4) ? escm::text(s) : bytes(s); a.c = byte_pattern(s, a.s); a.to = s.chance(1, 2) ? byte_pattern(s, a.s) : bytes(s); }
        else
        {
            t = text(s, f);
            auto p = pattern(s, t, f, s.chance(1, 2));
            a.s = model::enc(t); a.c = model::enc(p); a.to = model::enc(s.chance(1, 2) ? pattern(s, p, f) : text(s, f));
            if (s.chance(1, 6)) a.s += "\\n\\u0041\\\n"[0] == '\\' ? escm::text(s).substr(0, 40) : "";
        }
        if (a.c.size() > 300) a.c.resize(300);
        if (a.to.size() > 200) a.to.resize(200);
        a.list = list(s, t.empty() && hostile ? model::cps(a.s.substr(0, 200)) : t, f);
        if (hostile && s.chance(1, 4)) a.list += char32_t(s.u32());
        for (auto k = s.below(4); k; --k)
        {
            uint32_t x = s.chance(1, 8) ? s.u32() : cp(s, t.empty() ? 'a' : uint32_t(t[s.below(uint32_t(t.size()))]));
            a.ranges.emplace_back(x, s.chance(1, 3) ? x : s.chance(1, 8) ? s.u32() : x + s.below(40));
        }
        a.negated = s.chance(1, 4);
        a.ignore = s.chance(1, 2);
        auto n = a.s.size();
        a.i = index(s, n); a.j = index(s, n); a.limit = s.chance(1, 10) ? 0 : limit(s, 5);
        a.off = s.chance(1, 3) ? 0 : s.chance(1, 3) ? n : s.below(uint32_t(n) + 1);
        if (!hostile) while (a.off < n && a.off && model::cont(a.s[a.off])) --a.off;
        a.cp = s.chance(1, 10) ? (s.chance(1, 2) ? 0x110000 + s.below(4) : s.u32()) : cp(s, t.empty() ? 'a' : uint32_t(t[s.below(uint32_t(t.size()))]));
        a.cp2 = s.chance(1, 10) ? s.u32() : cp(s, a.cp);
        a.splits = s.chance(1, 2) ? SIZE_MAX - s.below(2) : s.below(5);
        return a;
    }
}
