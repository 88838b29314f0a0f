// Input generators, driven by the byte tape.
#pragma once
#include <array>
#include "fw.hpp"
#include "model.hpp"

namespace gen
{
    // Lists of every length up to 70 (and some longer): runs of characters from
    // several places, in several orders.
    constexpr uint32_t LIST_SWEEPS = 81;
    template <typename F>
    void sweep_lists(uint32_t k, F f)
    {
        static const uint32_t longer[] = {100, 127, 128, 129, 256, 300, 200, 255, 257, 512, 1030};
        auto n = k < 70 ? k : longer[k - 70];
        for (uint32_t base : {uint32_t('!'), uint32_t('A'), uint32_t('a'), 0xC0u, 0x370u, 0x4E00u, 0x10400u})
            for (uint32_t step : {1u, 3u})
                for (int order = 0; order < 7; ++order)
                {
                    if (base < 128 && base + n * step > 0x400) continue;
                    // (orders 3 to 6: nearly sorted, with and without repetitions)
                    if (order > 2 && (n < 4 || (base != 'A' && base != 0x370) || (n > 300 && order > 4))) continue;
                    if (n > 300 && (base != 0x370 || step > 1) && !fw::tier_thorough()) continue;
                    std::u32string l;
                    for (uint32_t i = 0; i < n; ++i)
                    {
                        auto j = order == 0 ? i : order == 1 ? n - 1 - i
                            : order == 3 ? (i == 0 ? n - 1 : i - 1) : order == 4 ? (i + 1 == n ? 0 : i + 1) : order == 5 ? (i == n / 2 ? n / 2 + 1 : i) : order == 6 ? (i == n - 2 ? 1 : i) : n % 7 ? (i * 7) % n : (i + n / 2) % n;
                        l += char32_t(base + j * step);
                    }
                    f(l, base, step);
                }
    }
    using fw::Src;
    using std::string;
    using std::string_view;
    using std::u32string;

    // Members of such a list, and characters next to them.
    inline u32string sweep_probes(const u32string& l, uint32_t base, uint32_t step)
    {
        u32string r = {char32_t(base - 1), char32_t(base + 1), char32_t(base + uint32_t(l.size()) * step), char32_t(base ^ 0x100), U'~'};
        if (auto n = uint32_t(l.size()); n > 3) for (auto j : {n - 1, n - 2, n / 2, n / 2 + 1, 1u, 0u}) r += char32_t(base + j * step);
        for (size_t i = 0; i < l.size(); i += l.size() > 40 && i > 4 && i + 6 < l.size() ? 5 : 1) r += l[i];
        return r;
    }
    inline const std::vector<uint32_t>& special()
    {
        static const std::vector<uint32_t> v = {
            0, 1, 8, 9, 10, 11, 12, 13, 0x1C, 0x1F, 0x20, 0x22, 0x2C, 0x2D, 0x2F, 0x30, 0x39, 0x3A, 0x40, 0x41, 0x5A, 0x5B, 0x5C, 0x5F, 0x60,
            0x61, 0x7A, 0x7B, 0x7E, 0x7F, 0x80, 0x81, 0x84, 0x85, 0x86, 0x8A, 0x8D, 0x9F, 0xA0, 0xAA, 0xAD, 0xB5, 0xBF, 0xC0, 0xC5, 0xD7, 0xDF, 0xE0, 0xE5, 0xF7, 0xFF,
            0x100, 0x10A, 0x10D, 0x130, 0x131, 0x149, 0x178, 0x17F, 0x18F, 0x1C4, 0x1C5, 0x1C6, 0x1F0, 0x1F1, 0x1F2, 0x250, 0x2FF, 0x300, 0x301, 0x308, 0x30A, 0x315,
            0x338, 0x344, 0x345, 0x34F, 0x36F, 0x370, 0x390, 0x3B1, 0x3B9, 0x3C2, 0x3C3, 0x3C9, 0x3D1, 0x3F4, 0x483, 0x488, 0x489, 0x7FD, 0x7FF, 0x800, 0x903, 0x93F,
            0xFFF, 0x1000, 0x10D0, 0x1160, 0x13A0, 0x1680, 0x180E, 0x1ABE, 0x1C80, 0x1C90, 0x1DC0, 0x1E9E, 0x1EA8, 0x1F80, 0x1F82, 0x1F88, 0x1FBE, 0x2000, 0x200A, 0x200B,
            0x200D, 0x2027, 0x2028, 0x2029, 0x202A, 0x202F, 0x20D0, 0x20DD, 0x20E3, 0x2126, 0x212A, 0x212B, 0x2C65, 0x3000, 0x3042, 0x304B, 0x3099, 0x309A, 0x3400, 0x4DBF,
            0x4E00, 0x4E01, 0x9FFF, 0xA66F, 0xA67F, 0xAB70, 0xABBF, 0xAC00, 0xD7A3, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xF8FF, 0xFB1E, 0xFE00, 0xFE0F,
            0xFE20, 0xFEFF, 0xFF21, 0xFF41, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x10400, 0x10428, 0x105C9, 0x11099, 0x110BA, 0x1ABCD, 0x1D165, 0x1D1BC, 0x1D7FF, 0x1F600,
            0x1FFFF, 0x20000, 0x2A6DF, 0x2FFFF, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000, 0xE0100, 0xE01EF, 0xFFFFD, 0xFFFFF, 0x100000, 0x100041, 0x100300, 0x10FFFD, 0x10FFFE, 0x10FFFF};
        return v;
    }
    inline const std::vector<uint32_t>& newlines()
    {
        static const std::vector<uint32_t> v = {'\n', '\r', '\n', '\r', '\v', '\f', 0x85, 0x2028, 0x2029};
        return v;
    }
    inline const std::vector<uint32_t>& spaces()
    {
        static const std::vector<uint32_t> v = {' ', '\t', '\n', '\r', '\f', '\v', ' ', 0xA0, 0x2003, 0x3000, 0x1680, 0x85};
        return v;
    }

    // A single code point; prev lets it relate to an earlier one.
    inline uint32_t cp(Src& s, uint32_t prev = 'a')
    {
        switch (s.below(20))
        {
        case 0: case 1: case 2: return "abAB"[s.below(4)];
        case 3: return 0x20 + s.below(0x5F);
        case 4: return s.pick(newlines());
        case 5: return s.pick(spaces());
        case 6: case 7: case 8: return s.pick(special());
        case 9: return s.pick(uni::cased);
        case 10: return s.pick(uni::odd_case);
        case 11: case 12: return s.pick(uni::marks);
        case 13: return s.pick(uni::composed);
        case 14: return s.pick(uni::letters);
        case 15:
        {
            auto e = s.pick(uni::class_edges) + s.below(3);
            return e <= uni::MAX ? (e ? e - 1 : 0) : uni::MAX;
        }
        case 16: return s.below(0x110000);
        case 17: return 1u << s.below(21);
        case 18: // a neighbour or an alias of the previous one
        {
            auto c = prev ^ (1u << s.below(21));
            return c <= uni::MAX ? c : prev;
        }
        default:
            switch (s.below(5))
            {
            case 0: return uni::upper(prev);
            case 1: return uni::lower(prev);
            case 2: return uni::title(prev);
            case 3: return prev + 1 <= uni::MAX ? prev + 1 : prev;
            default: return prev;
            }
        }
    }

    enum Flavor { MIXED, MARKS, CASE, NEWLINES, SPACES, COMPOSE, ASCII };

    // Pieces of text as they occur in practice
    inline const std::vector<u32string>& words()
    {
        static const std::vector<u32string> v = {
            U"\r\n", U"\n\r", U"\r\n\r\n", U"\n\n", U"\r\r\n", U"</script>", U"<!-- -->", U"&amp;", U"http://a.b/c?d=e&f#g", U"%20", U"C:\\d\\e", U"../", U"a@b.c", U"\\n", U"\\u00E5", U"\\\"",
            U"0x1F", U"-1", U"1e+5", U"3.14", U"007", U"12345678901234567890", U"{}", U"[]", U"()", U"''", U"\"\"", U"--", U"...", U", ", U"; ", U"key=value", U"don't", U"a_b", U"CamelCase", U"x-y",
            U"I\u0307", U"i\u0307", U"\u0130", U"\u0131", U"stra\u00DFe", U"STRASSE", U"\u039F\u0394\u039F\u03A3", U"\u03C3\u03C2", U"\uFB01", U"\uFB03", U"\u0149a", U"\u01C4\u01C5\u01C6", U"\u00C5\u212BA\u030A", U"\u2126\u03A9", U"K\u212A",
            U"e\u0301", U"e\u0323\u0301", U"e\u0301\u0323", U"A\u0302\u0301", U"\u0344", U"\u0308\u0301", U"\u1112\u1161\u11AB", U"\uAC00", U"\uD55C\uAE00", U"\u0915\u093C", U"\u0958", U"\u304B\u3099", U"\u0627\u0653",
            U"\U0001F468\u200D\U0001F469\u200D\U0001F467", U"\U0001F1F3\U0001F1F4", U"\U0001F44D\U0001F3FD", U"\u2764\uFE0F", U"1\uFE0F\u20E3", U"\u4E2D\u6587", U"\uFEFF", U"\u200B", U"\u00AD", U"\u200E", U"\u202E", U"\u2028", U"\u2029", U"\u0085", U"\u3000", U"\uFFFD", U"\u0E01\u0E33"};
        return v;
    }

    inline void add_cp(Src& s, u32string& r, Flavor f)
    {
        uint32_t prev = r.empty() ? 'a' : uint32_t(r.back());
        if (s.chance(1, 3)) { r += char32_t(cp(s, prev)); return; }
        if (s.chance(1, 20)) { r += s.pick(words()); return; }
        switch (f)
        {
        case MARKS:
            if (s.chance(1, 2)) r += char32_t(s.pick(uni::marks));
            else r += char32_t(cp(s, prev));
            break;
        case CASE:
        {
            auto c = s.chance(1, 3) ? s.pick(uni::odd_case) : s.chance(1, 2) ? s.pick(uni::cased) : uint32_t("abAB\xDFsS Ik"[s.below(10)] & 0xFF);
            r += char32_t(c);
            break;
        }
        case NEWLINES: r += char32_t(s.chance(1, 2) ? s.pick(newlines()) : "ab\r\n"[s.below(4)]); break;
        case SPACES: r += char32_t(s.chance(2, 3) ? s.pick(spaces()) : cp(s, prev)); break;
        case COMPOSE:
        {
            auto c = s.pick(uni::composed);
            auto d = uni::decompose(c);
            switch (s.below(8))
            {
            case 0: r += char32_t(c); break;
            case 1: case 2: r += d; break;
            case 3: r += char32_t(uni::decomp[c].first); r += char32_t(uni::decomp[c].second); break;
            case 4: r += d; r += d.back(); break;
            case 5: r += d.back(); break;
            case 6: r += d.front(); break;
            default:
                // A composable pair, changed in some bit: must not compose.
                d[s.below(uint32_t(d.size()))] ^= char32_t(1) << s.below(21);
                for (auto x : d) if (x <= uni::MAX) r += x;
            }
            break;
        }
        case ASCII: r += char32_t("aAbB0 .\t"[s.below(8)]); break;
        default: r += char32_t(cp(s, prev));
        }
    }

    inline Flavor flavor(Src& s, Flavor preferred)
    {
        if (s.chance(2, 3)) return preferred;
        return Flavor(s.below(7));
    }

    // Repeats unit until the encoded text is about target bytes long.
    inline uint32_t target_length(Src& s, bool big)
    {
        auto k = 3 + s.below(big ? 11 : 7);
        return (1u << k) + s.below(9) - 4;
    }

    // Around the limits of 8, 15, 16 and 17 bits, and of usual buffer sizes.
    inline uint32_t long_target(Src& s, uint32_t len)
    {
        if (len > fw::LONG) return len;
        static const uint32_t at[] = {1 << 8, 1 << 10, 1 << 12, 1 << 13, 1 << 15, 1 << 16, 1 << 16, 1 << 16, 1 << 16, 70000, 1 << 17};
        return s.pick(at) + s.below(9) - 4;
    }
    inline u32string long_text(Src& s, Flavor f, uint32_t len)
    {
        u32string unit, r;
        uint32_t n = 1 + s.below(6);
        while (unit.size() < n) add_cp(s, unit, f);
        auto target = long_target(s, len);
        for (n = s.below(4); n--;) add_cp(s, r, f);
        auto what = s.below(3); // code points, bytes or characters
        size_t unit_size = what == 0 ? unit.size() : 0, have = what == 0 ? r.size() : 0;
        auto measure = [&](const u32string& t) { size_t k = 0; for (auto c : t) k += what == 0 || c > uni::MAX ? 1 : what == 1 ? model::enc(c).size() : !uni::is_mark(c); return k; };
        unit_size = std::max<size_t>(measure(unit), 1); have = measure(r);
        u32string tail;
        for (n = s.below(4); n--;) add_cp(s, tail, f);
        have += measure(tail);
        r.reserve(target + 64);
        if (len > fw::LONG && s.chance(1, 2))
        {
            // The code points of the unit in any order, every one of them
            // much more or less often than another.
            auto k = s.below(uint32_t(unit.size())), often = s.below(40);
            while (have < target)
            {
                auto c = often && s.below(40) < often ? unit[k] : unit[s.below(uint32_t(unit.size()))];
                auto m = measure({c});
                if (have + m > target || r.size() > target) break;
                r += c;
                have += m;
            }
        }
        else for (; have + unit_size <= target && r.size() < target + 32; have += unit_size) r += unit;
        while (have < target) { r += U'x'; ++have; }
        return r + tail;
    }

    // A well-formed sequence of code points.
    inline u32string text(Src& s, Flavor pref = MIXED)
    {
        auto f = flavor(s, pref);
        u32string r;
        if (auto len = fw::want_len) { fw::want_len = 0; return long_text(s, f, len); }
        auto mode = s.below(24);
        if (mode == 0) return r;
        if (mode < 7)
        {
            // A tiny alphabet, so that overlaps and repetitions are common.
            u32string alphabet;
            uint32_t n = 1 + s.below(3);
            while (alphabet.size() < n) add_cp(s, alphabet, f);
            uint32_t len = 1 + s.below(s.chance(1, 6) ? 40 : 9);
            for (uint32_t i = 0; i < len; ++i) r += alphabet[s.below(uint32_t(alphabet.size()))];
            return r;
        }
        if (mode == 7 || (mode == 8 && s.chance(1, 2)))
        {
            u32string unit, tail;
            uint32_t n = 1 + s.below(4);
            while (unit.size() < n) add_cp(s, unit, f);
            auto target = target_length(s, s.chance(1, 24));
            auto b = model::enc(unit).size();
            if (b == 0) return r;
            if (s.chance(1, 3)) { r += U"xyz"; r.resize(s.below(4)); }
            for (size_t len = r.size(); len + b <= target; len += b) r += unit;
            n = s.below(4);
            while (n--) add_cp(s, r, f);
            return r;
        }
        uint32_t n = 1 + s.below(s.chance(1, 8) ? 60 : 8);
        for (uint32_t i = 0; i < n; ++i) add_cp(s, r, f);
        return r;
    }
    inline string utf8(Src& s, Flavor pref = MIXED) { return model::enc(text(s, pref)); }

    // Any byte string.
    inline string bytes(Src& s)
    {
        string r;
        auto l = fw::want_len && !s.chance(1, 4) ? fw::want_len : 0;
        if (l) fw::want_len = 0;
        auto mode = s.below(20);
        if (mode == 0 && !l) return r;
        if (mode < 5) { r = utf8(s, Flavor(s.below(7))); if (!l && (s.chance(1, 2) || r.empty())) return r; }
        uint32_t n = 1 + s.below(s.chance(1, 8) ? 40 : 7);
        string piece;
        for (uint32_t i = 0; i < n; ++i)
        {
            switch (s.below(14))
            {
            case 0: piece = string(1 + s.below(6), char(0x80 | s.below(64))); break;
            case 1: piece = string(1, char(0xC0 + s.below(64))); break;
            case 2: piece = model::enc(cp(s)); if (piece.size() > 1) piece.pop_back(); break;
            case 3: piece = string(1, char(s.u8())); break;
            case 4: { piece = model::enc(cp(s)); if (piece.size() > 1) piece.erase(0, 1); break; }
            case 5: { static const char* odd[] = {"\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xF0\x80\x80\x80", "\xF4\x90\x80\x80", "\xF7\xBF\xBF\xBF", "\xF8\x88\x80\x80\x80",
                                                  "\xFC\x84\x80\x80\x80\x80", "\xFE", "\xFF", "\xEF\xBB\xBF", "\xED\xA0\x80"}; piece = s.pick(odd); break; }
            case 6: piece = string(1, '\0'); break;
            case 7: { piece = model::enc(cp(s)); piece += char(0x80 | s.below(64)); break; }
            case 8: { piece = model::enc(cp(s)); piece[s.below(uint32_t(piece.size()))] = char(s.u8()); break; }
            case 9: if (!piece.empty()) break; [[fallthrough]];
            case 10: piece = "ab"; break;
            default: piece = model::enc(cp(s));
            }
            r += piece;
        }
        if (l && r.empty()) r = "a";
        if (l || s.chance(1, 30))
        {
            auto unit = r;
            auto target = l ? long_target(s, l) : target_length(s, s.chance(1, 24));
            while (!unit.empty() && r.size() + unit.size() <= target) r += unit;
        }
        if (s.chance(1, 12)) { r.insert(s.below(uint32_t(r.size() + 1)), 1 + s.below(70), char(0x80 | s.below(64))); }
        if (s.chance(1, 10) && !r.empty()) r.resize(s.below(uint32_t(r.size()) + 1));
        return r;
    }

    // A pattern related to text t.
    inline u32string pattern(Src& s, const u32string& t, Flavor pref = MIXED, bool change_case = false)
    {
        u32string r;
        auto mode = s.below(12);
        if (mode == 0) return r;
        if (mode == 1 || t.empty()) { r = text(s, pref); if (r.size() > 80) r.resize(80); return r; }
        if (mode == 2) return t.size() < 100 ? t : t.substr(t.size() - (t.size() > 1000 ? 40 : 100));
        auto n = uint32_t(t.size());
        auto a = s.chance(1, 5) ? 0 : s.below(n);
        if (n > 9000 && s.chance(1, 2)) a = n - 1 - s.below(6);
        auto len = s.chance(1, 5) ? n - a : 1 + s.below(s.chance(1, 2) ? 2 : std::min(n - a, 64u));
        r = t.substr(a, std::min(len, t.size() > 1000 ? 40u : 200u));
        if (change_case)
            for (auto& c : r)
                switch (s.below(4))
                {
                case 0: c = uni::upper(c); break;
                case 1: c = uni::lower(c); break;
                case 2: c = uni::title(c); break;
                }
        if (mode == 3) r += char32_t(cp(s, r.empty() ? 'a' : r.back()));
        if (mode == 4 && !r.empty()) r.back() = char32_t(cp(s, r.back()));
        if (mode == 5 && !r.empty()) r.front() = char32_t(cp(s, r.front()));
        if (mode == 6) r = r + r;
        return r;
    }
    inline string byte_pattern(Src& s, const string& t)
    {
        auto mode = s.below(10);
        if (mode == 0) return {};
        if (mode == 1 || t.empty()) { auto r = bytes(s); if (r.size() > 80) r.resize(80); return r; }
        if (mode == 2) return t.size() < 200 ? t : t.substr(t.size() - (t.size() > 1000 ? 60 : 200));
        auto n = uint32_t(t.size());
        auto a = s.chance(1, 5) ? 0 : s.below(n);
        if (n > 9000 && s.chance(1, 2)) a = n - 1 - s.below(8);
        auto len = s.chance(1, 5) ? n - a : 1 + s.below(s.chance(1, 2) ? 3 : std::min(n - a, 64u));
        auto r = t.substr(a, std::min(len, t.size() > 1000 ? 60u : 200u));
        if (mode == 3) r += char(s.u8());
        if (mode == 4 && !r.empty()) r.back() ^= char(1 << s.below(8));
        if (mode == 5 && !r.empty()) r.front() ^= char(1 << s.below(8));
        if (mode == 6) r = r + r;
        return r;
    }

    // A value that some narrower integer can't tell from x
    inline ptrdiff_t alias(Src& s, ptrdiff_t x)
    {
        static const int widths[] = {8, 15, 16, 31, 32, 33, 40, 48, 53, 62, 63};
        auto d = uint64_t(1) << s.pick(widths);
        return ptrdiff_t(s.chance(1, 2) ? uint64_t(x) + d : uint64_t(x) - d);
    }
    inline ptrdiff_t index(Src& s, size_t n)
    {
        static const ptrdiff_t ext[] = {PTRDIFF_MIN, PTRDIFF_MIN + 1, PTRDIFF_MAX, PTRDIFF_MAX - 1, INT32_MAX, INT32_MIN, ptrdiff_t(UINT32_MAX), ptrdiff_t(1) << 32, -(ptrdiff_t(1) << 32),
                                        -(ptrdiff_t(1) << 32) + 1, -(ptrdiff_t(1) << 32) - 1};
        auto m = uint32_t(n);
        switch (s.below(8))
        {
        case 0: return s.chance(1, 2) ? s.pick(ext) : alias(s, ptrdiff_t(s.below(2 * m + 5)) - ptrdiff_t(m) - 2);
        case 1: return ptrdiff_t(n) + ptrdiff_t(s.below(5)) - 2;
        case 2: return -ptrdiff_t(n) + ptrdiff_t(s.below(5)) - 2;
        case 3: return ptrdiff_t(s.below(5)) - 2;
        case 4: case 5: return ptrdiff_t(s.below(m + 1));
        default: return -ptrdiff_t(s.below(m + 1)) ;
        }
    }
    inline ptrdiff_t limit(Src& s, size_t n) // never 0
    {
        static const ptrdiff_t ext[] = {PTRDIFF_MIN, PTRDIFF_MIN + 1, PTRDIFF_MAX, PTRDIFF_MAX - 1, 1, -1, INT32_MIN, ptrdiff_t(1) << 32, -(ptrdiff_t(1) << 32)};
        ptrdiff_t r;
        if (s.chance(1, 3)) r = s.pick(ext);
        else { r = 1 + ptrdiff_t(s.below(uint32_t(std::min<size_t>(n, s.chance(1, 4) ? n : 6)) + 1)); if (s.chance(1, 2)) r = -r; }
        if (s.chance(1, 8)) if (auto a = alias(s, r)) return a;
        return r;
    }
    // An offset on a code point boundary.
    inline size_t boundary(Src& s, const std::vector<model::Cp>& v, size_t size)
    {
        auto i = s.chance(1, 4) ? 0 : s.chance(1, 4) ? uint32_t(v.size()) : s.below(uint32_t(v.size()) + 1);
        return i < v.size() ? v[i].off : size;
    }
    // A list of characters, related to text t.
    inline u32string list(Src& s, const u32string& t, Flavor pref = MIXED)
    {
        u32string r;
        if (s.chance(1, 8))
        {
            // Successive characters, around one of the text
            uint32_t c = t.empty() || s.chance(1, 3) ? cp(s) : uint32_t(t[s.below(uint32_t(t.size()))]);
            uint32_t n = 1 + s.below(s.chance(1, 2) ? 12 : 70), step = s.chance(1, 6) ? 2 + s.below(300) : 1;
            uint32_t before = s.below(n + 2) * step;
            c = c > before ? c - before : 0;
            for (uint32_t i = 0; i < n && c <= uni::MAX; ++i, c += step) r += char32_t(c);
            switch (s.below(4))
            {
            case 0: std::reverse(r.begin(), r.end()); break;
            case 1: if (!r.empty()) r.insert(s.below(uint32_t(r.size())), 1, char32_t(cp(s, r[0]))); break;
            case 2: if (r.size() > 2) std::swap(r[s.below(uint32_t(r.size()))], r[s.below(uint32_t(r.size()))]); break;
            }
            return r;
        }
        uint32_t n = s.below(s.chance(1, 5) ? 44 : 6);
        for (uint32_t i = 0; i < n; ++i)
        {
            if (!t.empty() && s.chance(1, n > 6 ? 8 : 2))
            {
                auto c = t[s.below(uint32_t(t.size()))];
                r += s.chance(1, 3) ? char32_t(cp(s, c)) : c;
            }
            else add_cp(s, r, pref);
        }
        if (n > 6 && s.chance(1, 2)) std::sort(r.begin(), r.end());
        return r;
    }
    // Every length up to 2559 in 256 steps, then lengths near the powers of two up to 65536, and some more.
    constexpr uint32_t LONG_SWEEPS = 256 + 40 + 4;
    inline std::vector<size_t> long_sizes(uint32_t k)
    {
        std::vector<size_t> r;
        if (k < 256) for (size_t j = 0; j < 10; ++j) r.push_back(k + 256 * j);
        else if (k < 296) r.push_back((size_t(4096) << (k - 256) / 8) + (k - 256) % 8 - 3);
        else r.push_back(std::array<size_t, 4>{3000, 5000, 10000, 100000}[k - 296]);
        return r;
    }
    // ASCII and as many other remarkable characters: all pairs of them are
    // judged somewhere, alone and inside a text.
    inline const u32string& paired()
    {
        static const auto r = []
        {
            u32string a, b;
            for (char32_t c = 0; c < 128; ++c) a += c;
            for (auto c : special()) if (c >= 128) b += char32_t(c);
            for (size_t j = 0; j < 128; ++j) a += b[j * b.size() / 128];
            return a;
        }();
        return r;
    }
    template <typename F>
    uint64_t pairs(uint32_t k, F f)
    {
        if (k >= paired().size()) return 0;
        EV("every-pair");
        for (auto y : paired()) f(paired()[k], y);
        return paired().size();
    }
    // n letters or characters without a period
    inline u32string long_text(size_t n, unsigned kind = 0)
    {
        static const char32_t MIX[] = {'a', 'Z', 0xE5, 0xC5, 0x3C3, 0x20AC, 0x4E2D, 0x1F600, 0x10400, '0', ' ', 0x10428};
        u32string r;
        uint32_t x = 12345 + kind;
        for (size_t i = 0; i < n; ++i)
        {
            x = x * 1664525u + 1013904223u;
            auto y = x >> 16;
            r += kind == 0 ? char32_t('a' + y % 26) : kind == 1 ? char32_t(0x400 + y % 0x50) : MIX[y % std::size(MIX)];
        }
        return r;
    }
}
