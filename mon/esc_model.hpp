// The escape grammar, parsed independently of the library.
#pragma once
#include "common.hpp"

namespace escm
{
    inline int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    struct Seq { size_t len = 0; uint64_t value = 0; bool ok = false; };  // !ok: incomplete or invalid
    inline size_t run(string_view s, size_t i, size_t max, int base)
    {
        size_t n = 0;
        while (n < max && i + n < s.size() && hex(s[i + n]) >= 0 && hex(s[i + n]) < base) ++n;
        return n;
    }
    inline uint64_t number(string_view s, unsigned base)
    {
        uint64_t v = 0;
        for (auto c : s) { v = v * base + uint64_t(hex(c)); if (v > 0xFFFFFFFFull) v = 0x100000000ull; }
        return v;
    }
    // The sequence starting with the backslash at s[i]; pairs: combine surrogate pairs.
    inline Seq parse(string_view s, size_t i, bool pairs, bool next)
    {
        if (i + 1 >= s.size()) return {};
        auto c = s[i + 1];
        switch (c)
        {
        case 'a': return {2, 7, true};
        case 'b': return {2, 8, true};
        case 'f': return {2, 12, true};
        case 'n': return {2, 10, true};
        case 'r': return {2, 13, true};
        case 't': return {2, 9, true};
        case 'v': return {2, 11, true};
        case 'x': case 'X':
        {
            auto n = run(s, i + 2, next ? 8 : SIZE_MAX, 16);
            if (n < (next ? 1u : 2u)) return {};
            return {2 + n, number(s.substr(i + 2, n), 16), true};
        }
        case 'U':
            if (run(s, i + 2, 8, 16) < 8) return {};
            return {10, number(s.substr(i + 2, 8), 16), true};
        case 'u':
        {
            if (run(s, i + 2, 4, 16) < 4) return {};
            auto v = number(s.substr(i + 2, 4), 16);
            if (pairs && v >= 0xD800 && v < 0xDC00 && s.substr(i + 6, 2) == "\\u" && run(s, i + 8, 4, 16) == 4)
            {
                auto w = number(s.substr(i + 8, 4), 16);
                if (w >= 0xDC00 && w < 0xE000) return {12, 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00), true};
            }
            return {6, v, true};
        }
        default:
            if (c >= '0' && c <= '7')
            {
                auto n = run(s, i + 1, 3, 8);
                return {1 + n, number(s.substr(i + 1, n), 8), true};
            }
            if (uint8_t(c) < 0x80) return {2, uint8_t(c), true};
            return {};
        }
    }
    // A string with many escape sequences, complete and not.
    inline string text(Src& src)
    {
        static const char* simple[] = {"\\a", "\\b", "\\f", "\\n", "\\r", "\\t", "\\v", "\\\\", "\\\"", "\\'", "\\/", "\\?", "\\8", "\\9", "\\ ", "\\e", "\\N", "\\g", "\\\x7F", "\\\n", "\\u", "\\U", "\\x", "\\X", "\\"};
        static const uint32_t values[] = {0, 1, 0x41, 0x7F, 0x80, 0xE5, 0xFF, 0x100, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xD800, 0xD83D, 0xDBFF, 0xDC00, 0xDE00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x110000,
                                          0x1FFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
        string r;
        char b[32];
        auto l = fw::want_len;
        fw::want_len = 0;
        for (auto k = src.below(9); k; --k)
        {
            string p;
            auto v = src.chance(1, 2) ? src.pick(values) : src.chance(1, 2) ? gen::cp(src) : src.u32() >> src.below(32);
            switch (src.below(14))
            {
            case 0: case 1: p = src.pick(simple); break;
            case 2: snprintf(b, sizeof b, src.chance(1, 2) ? "\\x%X" : "\\X%02x", v); p = b; break;
            case 3: snprintf(b, sizeof b, "\\x%0*X", int(1 + src.below(14)), v); p = b; break;
            case 4: case 5: snprintf(b, sizeof b, src.chance(1, 2) ? "\\u%04X" : "\\u%04x", v & 0xFFFF); p = b; break;
            case 6: snprintf(b, sizeof b, "\\u%04X", 0xD800 + src.below(0x400)); p = b; snprintf(b, sizeof b, src.chance(1, 4) ? "\\x%04X" : "\\u%04X", (src.chance(1, 5) ? 0xD800 : 0xDC00) + src.below(0x400)); p += b; break;
            case 7: snprintf(b, sizeof b, "\\U%08X", v); p = b; break;
            case 8: snprintf(b, sizeof b, "\\%o", src.below(01000)); p = b; break;
            case 9: snprintf(b, sizeof b, "\\%03o%u", src.below(01000), src.below(10)); p = b; break;
            case 10: { p = "\\"; p += char(src.u8()); break; }
            case 11: p = "\\" + model::enc(gen::cp(src)); break;
            case 12: p = model::enc(gen::text(src)).substr(0, 60); break;
            default: p = "0123456789abcdefABCDEFgG8-+ "[src.below(28)]; if (src.chance(1, 3)) p = string(1 + src.below(9), p[0]);
            }
            if (src.chance(1, 8) && !p.empty()) p.resize(src.below(uint32_t(p.size())));
            r += p;
        }
        if (l)
        {
            auto unit = r.empty() ? string("\\n") : r;
            auto target = gen::long_target(src, l);
            while (r.size() + unit.size() <= target) r += unit;
            while (r.size() < target) r += 'x';
        }
        if (src.chance(1, 10) && !r.empty()) r[src.below(uint32_t(r.size()))] = char(src.u8());
        return r;
    }
}
