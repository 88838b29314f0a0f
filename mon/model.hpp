// Reference model: naive definitions on decoded text.
#pragma once
#include <algorithm>
#include <functional>
#include <string>
#include <string_view>
#include <vector>
#include "uni.hpp"

namespace model
{
    using std::string;
    using std::string_view;

    inline string enc(uint32_t c)
    {
        string r;
        if (c < 0x80) r += char(c);
        else if (c < 0x800) { r += char(0xC0 | (c >> 6)); r += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += char(0xE0 | (c >> 12)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
        else if (c <= 0x10FFFF) { r += char(0xF0 | (c >> 18)); r += char(0x80 | ((c >> 12) & 63)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
        return r;
    }
    inline string enc(std::u32string_view s) { string r; for (auto c : s) r += enc(c); return r; }

    struct Cp { size_t off, len; uint32_t c; bool ok = true; size_t end() const { return off + len; } };

    inline bool cont(char c) { return (uint8_t(c) & 0xC0) == 0x80; }
    // Continuation bytes announced by a byte, -1 if it can't start a sequence.
    inline int announced(char ch)
    {
        auto c = uint8_t(ch);
        return c < 0x80 ? 0 : c < 0xC0 ? -1 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : c < 0xF8 ? 3 : -1;
    }
    inline uint32_t value(string_view q)
    {
        auto c = uint8_t(q[0]);
        uint32_t v = q.size() == 1 ? c : q.size() == 2 ? c & 31 : q.size() == 3 ? c & 15 : c & 7;
        for (size_t i = 1; i < q.size(); ++i) v = v << 6 | (uint8_t(q[i]) & 63);
        return v;
    }
    // The sequence or malformed part that starts at off (off < s.size()).
    inline Cp step(string_view s, size_t off)
    {
        int n = announced(s[off]);
        size_t k = 0;
        while (off + 1 + k < s.size() && cont(s[off + 1 + k]) && (n < 0 || k < size_t(n))) ++k;
        Cp r{off, 1 + k, 0, n >= 0 && k == size_t(n)};
        if (r.ok) r.c = value(s.substr(off, 1 + k));
        return r;
    }
    inline std::vector<Cp> parse(string_view s)
    {
        std::vector<Cp> r;
        for (size_t i = 0; i < s.size(); i = r.back().end()) r.push_back(step(s, i));
        return r;
    }
    inline bool valid(string_view s)
    {
        for (size_t i = 0; i < s.size();) { auto c = step(s, i); if (!c.ok) return false; i = c.end(); }
        return true;
    }
    // The well-formed sequence that ends at end, if any.
    inline Cp step_back(string_view s, size_t end)
    {
        size_t n = 0;
        while (n < 4 && n < end && cont(s[end - 1 - n])) ++n;
        if (n < 4 && n < end && announced(s[end - 1 - n]) == int(n))
            return {end - 1 - n, n + 1, value(s.substr(end - 1 - n, n + 1)), true};
        return {end, 0, 0, false};
    }
    // Where stepping back from pos arrives
    struct Back { size_t pos; bool all_continuation = false, illegal = false, missing = false, excess = false; };
    inline Back skip_back(string_view s, size_t begin, size_t pos)
    {
        size_t n = 0, p = pos;
        while (p > begin && cont(s[p - 1])) { --p; ++n; }
        if (p == begin) return {begin, true};
        auto m = announced(s[p - 1]);
        if (m < 0) return {p - 1, false, true};
        if (size_t(m) >= n) return {p - 1, false, false, size_t(m) > n};
        return {p + size_t(m), false, false, false, true};
    }
    inline std::u32string cps(string_view s)
    {
        std::u32string r;
        for (auto& c : parse(s)) r += char32_t(c.c);
        return r;
    }

    // Characters: a code point and the marks following it.
    struct Range { size_t off, len; size_t end() const { return off + len; } bool operator==(const Range&) const = default; };
    inline std::vector<Range> chars(string_view s)
    {
        std::vector<Range> r;
        for (auto& c : parse(s))
            if (!r.empty() && uni::is_mark(c.c)) r.back().len += c.len;
            else r.push_back({c.off, c.len});
        return r;
    }
    inline std::vector<Range> codepoints(string_view s)
    {
        std::vector<Range> r;
        for (auto& c : parse(s)) r.push_back({c.off, c.len});
        return r;
    }
    inline size_t clamp_index(size_t n, ptrdiff_t i)
    {
        if (i >= 0) return std::min(n, size_t(i));
        auto k = size_t(0) - size_t(i); // |i|
        return k >= n ? 0 : n - k;
    }
    // Does index i denote one of n items (or one of n + 1 boundaries)?
    inline bool has_item(size_t n, ptrdiff_t i) { return i >= 0 ? size_t(i) < n : size_t(0) - size_t(i) <= n; }
    inline bool has_boundary(size_t n, ptrdiff_t i) { return i >= 0 ? size_t(i) <= n : size_t(0) - size_t(i) <= n; }
    inline size_t boundary(const std::vector<Range>& v, size_t size, size_t i) { return i < v.size() ? v[i].off : size; }
    inline Range slice(const std::vector<Range>& v, size_t size, ptrdiff_t start, ptrdiff_t end)
    {
        size_t s = clamp_index(v.size(), start), e = clamp_index(v.size(), end);
        auto a = boundary(v, size, s), b = boundary(v, size, e);
        return {a, b > a ? b - a : 0};
    }

    // Searching ----------------------------------------------------------------
    constexpr size_t NONE = ~size_t(0);
    inline size_t find_first(string_view s, string_view c, size_t off)
    {
        if (c.empty()) return NONE;
        for (size_t i = off; i + c.size() <= s.size(); ++i)
            if (s[i] == c[0] && s.substr(i, c.size()) == c) return i;
        return NONE;
    }
    inline size_t find_last(string_view s, string_view c, size_t off)
    {
        off = std::min(off, s.size());
        if (c.empty() || c.size() > off) return NONE;
        for (size_t i = off - c.size() + 1; i-- > 0;)
            if (s[i] == c[0] && s.substr(i, c.size()) == c) return i;
        return NONE;
    }
    using Pred = std::function<bool(uint32_t)>;
    // The number of code points starting before, or ending at or before, off
    inline size_t starting_before(const std::vector<Cp>& v, size_t off) { return size_t(std::lower_bound(v.begin(), v.end(), off, [](const Cp& c, size_t o) { return c.off < o; }) - v.begin()); }
    inline size_t ending_by(const std::vector<Cp>& v, size_t off) { return size_t(std::upper_bound(v.begin(), v.end(), off, [](size_t o, const Cp& c) { return o < c.end(); }) - v.begin()); }
    inline Cp find_first_cp(const std::vector<Cp>& v, const Pred& p, size_t off)
    {
        for (size_t i = starting_before(v, off); i < v.size(); ++i) if (p(v[i].c)) return v[i];
        return {NONE, 0, 0xFFFFFFFF, false};
    }
    inline Cp find_last_cp(const std::vector<Cp>& v, const Pred& p, size_t off)
    {
        for (size_t i = ending_by(v, off); i-- > 0;) if (p(v[i].c)) return v[i];
        return {NONE, 0, 0xFFFFFFFF, false};
    }
    inline Range find_first_newline(string_view s, const std::vector<Cp>& v, size_t off)
    {
        auto c = find_first_cp(v, uni::is_newline, off);
        if (!c.ok) return {NONE, 0};
        if (c.c == '\r' && c.end() < s.size() && s[c.end()] == '\n') return {c.off, 2};
        return {c.off, c.len};
    }
    inline Range find_last_newline(string_view s, const std::vector<Cp>& v, size_t off)
    {
        auto c = find_last_cp(v, uni::is_newline, off);
        if (!c.ok) return {NONE, 0};
        if (c.c == '\n' && c.off > 0 && s[c.off - 1] == '\r') return {c.off - 1, 2};
        return {c.off, c.len};
    }
    // Case-insensitive matches of code point sequence c
    inline bool ci_match(const std::vector<Cp>& v, size_t i, const std::vector<Cp>& c)
    {
        if (i + c.size() > v.size()) return false;
        for (size_t k = 0; k < c.size(); ++k)
            if (uni::upper(v[i + k].c) != uni::upper(c[k].c)) return false;
        return true;
    }
    inline Range ci_find_first(const std::vector<Cp>& v, const std::vector<Cp>& c, size_t off)
    {
        if (c.empty()) return {NONE, 0};
        for (size_t i = starting_before(v, off); i + c.size() <= v.size(); ++i)
            if (ci_match(v, i, c))
                return {v[i].off, v[i + c.size() - 1].end() - v[i].off};
        return {NONE, 0};
    }
    inline Range ci_find_last(const std::vector<Cp>& v, const std::vector<Cp>& c, size_t off)
    {
        if (c.empty()) return {NONE, 0};
        for (size_t i = ending_by(v, off); i-- > 0;)
            if (i + c.size() <= v.size() && v[i + c.size() - 1].end() <= off && ci_match(v, i, c))
                return {v[i].off, v[i + c.size() - 1].end() - v[i].off};
        return {NONE, 0};
    }

    // Splitting: finder(rest offset) gives the leftmost separator at or after it
    // (len 0: none).
    using Finder = std::function<Range(size_t)>;
    struct Split { std::vector<Range> parts, seps; };
    inline Split split_all(size_t size, const Finder& f)
    {
        Split r;
        size_t pos = 0;
        while (true)
        {
            auto m = f(pos);
            if (!m.len) { r.parts.push_back({pos, size - pos}); return r; }
            r.parts.push_back({pos, m.off - pos});
            r.seps.push_back(m);
            pos = m.end();
        }
    }
    inline std::vector<Range> split(size_t size, const Finder& f, size_t limit, bool ignore_empty)
    {
        std::vector<Range> r;
        size_t pos = 0;
        while (r.size() < limit)
        {
            auto m = f(pos);
            if (!m.len) break;
            if (m.off != pos || !ignore_empty) r.push_back({pos, m.off - pos});
            pos = m.end();
        }
        if (pos != size || !ignore_empty) r.push_back({pos, size - pos});
        return r;
    }

    // Replacing ------------------------------------------------------------------
    inline string splice(string_view s, const std::vector<Range>& m, string_view to)
    {
        string r;
        size_t pos = 0;
        for (auto& x : m) { r += s.substr(pos, x.off - pos); r += to; pos = x.end(); }
        r += s.substr(pos);
        return r;
    }
    inline std::vector<Range> matches_fwd(size_t size, const Finder& first, size_t max)
    {
        std::vector<Range> r;
        size_t pos = 0;
        while (r.size() < max && pos <= size)
        {
            auto m = first(pos);
            if (!m.len) break;
            r.push_back(m);
            pos = m.end();
        }
        return r;
    }
    inline std::vector<Range> matches_bwd(size_t size, const Finder& last, size_t max)
    {
        std::vector<Range> r;
        size_t pos = size;
        while (r.size() < max)
        {
            auto m = last(pos);
            if (!m.len) break;
            r.push_back(m);
            pos = m.off;
        }
        std::reverse(r.begin(), r.end());
        return r;
    }

    // Case conversion ------------------------------------------------------------
    inline string upper(const std::vector<Cp>& v)
    {
        string r;
        for (auto& c : v) if (c.c == 0xDF) r += "SS"; else r += enc(uni::upper(c.c));
        return r;
    }
    inline string lower(const std::vector<Cp>& v)
    {
        string r;
        for (auto& c : v) r += enc(uni::lower(c.c));
        return r;
    }
    inline string title(const std::vector<Cp>& v)
    {
        string r;
        bool prev = false;
        for (auto& c : v)
        {
            bool letter = uni::is_letter(c.c);
            if (!letter) r += enc(c.c);
            else if (prev) r += enc(uni::lower(c.c));
            else if (c.c == 0xDF) r += "Ss";
            else r += enc(uni::title(c.c));
            prev = letter;
        }
        return r;
    }
    inline std::u32string decomposed(std::u32string_view s)
    {
        std::u32string r;
        for (auto c : s) r += uni::decompose(c);
        return r;
    }
    inline std::u32string composed(std::u32string_view s)
    {
        std::u32string r;
        for (auto c : s)
            if (auto k = r.empty() ? 0 : uni::compose(r.back(), c)) r.back() = char32_t(k);
            else r += c;
        return r;
    }
}
