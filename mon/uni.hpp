// Unicode oracle: /verif/data/UnicodeData16.0.0.txt, parsed independently of
// the library's tables and of its generators.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace uni
{
    constexpr uint32_t MAX = 0x10FFFF;
    // Bit numbers of the general categories, in the order of the library's
    // documented CharClass constants: Lu is bit 0, ..., Cn bit 29.
    enum Gc : uint8_t { Lu, Ll, Lt, Lm, Lo, Mn, Mc, Me, Nd, Nl, No, Pc, Pd, Ps, Pe, Pi, Pf, Po,
                        Sm, Sc, Sk, So, Zs, Zl, Zp, Cc, Cf, Cs, Co, Cn };
    void load();
    extern std::vector<uint8_t> gc_;
    extern std::vector<uint32_t> upper_, lower_, title_;
    extern std::map<uint32_t, std::pair<uint32_t, uint32_t>> decomp;
    extern std::map<std::pair<uint32_t, uint32_t>, uint32_t> comp;
    inline uint8_t gc(uint32_t c) { return c <= MAX ? gc_[c] : uint8_t(Cn); }
    inline uint32_t upper(uint32_t c) { return c <= MAX ? upper_[c] : c; }
    inline uint32_t lower(uint32_t c) { return c <= MAX ? lower_[c] : c; }
    inline uint32_t title(uint32_t c) { return c <= MAX ? title_[c] : c; }
    inline bool is_letter(uint32_t c) { return gc(c) <= Lo; }
    inline bool is_mark(uint32_t c) { auto g = gc(c); return g >= Mn && g <= Me; }
    inline bool is_separator(uint32_t c) { auto g = gc(c); return g >= Zs && g <= Zp; }
    inline bool is_newline(uint32_t c) { return (c >= 10 && c <= 13) || c == 0x85 || c == 0x2028 || c == 0x2029; }
    inline bool is_whitespace(uint32_t c) { return c == 9 || is_newline(c) || is_separator(c); }
    inline std::u32string decompose(uint32_t c)
    {
        auto it = decomp.find(c);
        if (it == decomp.end()) return std::u32string(1, char32_t(c));
        return decompose(it->second.first) + decompose(it->second.second);
    }
    inline uint32_t compose(uint32_t a, uint32_t b)
    {
        auto it = comp.find({a, b});
        return it == comp.end() ? 0 : it->second;
    }
    // Lists for the generators.
    extern std::vector<uint32_t> marks, cased, composed, odd_case, letters, separators;
    extern std::vector<uint32_t> class_edges; // first code point of every run of a category
}
