#include "api.hpp"
#include <deque>
#include <list>
#include <locale>
#include <new>
#include <sstream>
#include <cstring>
#include <optional>
#include <Ystring/Ystring.hpp>
#include <Ystring/Escape.hpp>
#include <Ystring/YstringException.hpp>

namespace api
{
    namespace ys = ystring;
    namespace ci = ystring::case_insensitive;
    using ys::Subrange;

    namespace
    {
        struct Guard
        {
            Sink& o;
            explicit Guard(Sink& o) : o(o) { if (o.enter) o.enter(); }
            ~Guard() { if (o.leave) o.leave(); }
        };
        void num(Sink& o, uint64_t v) { char b[24]; snprintf(b, sizeof b, "%llx;", (unsigned long long)v); o.out += b; }
        // Everything read here by value: uninitialised results are noticed.
        void put(Sink& o, const View&, bool v) { o.out += v ? 'T' : 'F'; }
        void put(Sink& o, const View&, size_t v) { num(o, v); }
        void put(Sink& o, const View&, int32_t v) { o.out += v < 0 ? '<' : v > 0 ? '>' : '='; }
        void put(Sink& o, const View&, char32_t v) { num(o, v); }
        void put(Sink& o, const View&, ys::CharClass_t v) { num(o, uint64_t(v)); }
        void put(Sink& o, const View&, const string& v) { num(o, v.size()); o.out += v; o.result_bytes += v.size(); }
        void put(Sink& o, const View&, const u32string& v) { num(o, v.size()); for (auto c : v) num(o, c); o.result_bytes += v.size() * 4; }
        void put(Sink& o, const View& v, const Subrange& r)
        {
            if (r.length == 0) { o.out += "none;"; return; } // (the offset of an empty range means nothing)
            num(o, r.offset); num(o, r.length);
            if (r.offset > v.s.size() || r.length > v.s.size() - r.offset) o.outside = "returned range";
        }
        void put(Sink& o, const View& v, const string_view& r)
        {
            num(o, r.size());
            if (!r.empty())
            {
                auto a = uintptr_t(v.s.data()), b = uintptr_t(r.data());
                if (b < a || b > a + v.s.size() || r.size() > v.s.size() - (b - a)) { o.outside = "returned view"; return; }
                num(o, b - a);
            }
            o.result_bytes += sizeof(string_view);
        }
        void put(Sink& o, const View& v, const std::vector<string_view>& r) { num(o, r.size()); for (auto& x : r) put(o, v, x); }
        void put(Sink& o, const View& v, const std::optional<char32_t>& r) { if (r) put(o, v, *r); else o.out += "-;"; }
        void put(Sink& o, const View& v, const std::pair<Subrange, char32_t>& r) { put(o, v, r.first); put(o, v, r.second); }

        // A function that changes the view it is given.
        template <class F>
        void on_view(const View& v, Sink& o, F f, bool skips_line_ends = false)
        {
            auto s = v.s;
            try
            {
                auto r = [&] { Guard g(o); return f(s); }();
                put(o, v, r);
            }
            catch (...)
            {
                auto t = v.s;
                // Pairs of a backslash and a newline may have been skipped.
                if (skips_line_ends)
                    while (t.size() > s.size() && t.size() > 1 && t[0] == '\\' && t[1] == '\n') t.remove_prefix(2);
                if (s.data() != t.data() || s.size() != t.size()) o.changed = "view";
                throw;
            }
            put(o, v, s);
            if (s.empty()) put(o, v, size_t(s.data() - v.s.data()));
        }
        // A function that changes the iterator it is given.
        template <class It, class F>
        void on_it(const View& v, Sink& o, It begin, It start, F f)
        {
            auto it = start;
            try
            {
                auto r = [&] { Guard g(o); return f(it); }();
                put(o, v, r);
            }
            catch (...)
            {
                if (it != start) o.changed = "iterator";
                throw;
            }
            put(o, v, size_t(std::distance(begin, it)));
        }
    }
    void make_set(const Args& a, ys::CodepointSet& set)
    {
        for (auto& [x, y] : a.ranges) set.ranges.emplace_back(char32_t(x), char32_t(y));
        set.negated = a.negated;
    }

#define OP(name, cost, ...) {name, cost, false, [](const View& v, Sink& o) { auto r = [&] { Guard g(o); return __VA_ARGS__; }(); put(o, v, r); }}
#define VOP(name, ...) {name, LIN, false, [](const View& v, Sink& o) { on_view(v, o, [&](string_view& s) { return __VA_ARGS__; }); }}
#define B v.s.begin()
#define E v.s.end()
#define A (*v.a)
#define SP (ys::SplitParams{v.a->splits, v.a->ignore})
#define IN_LIST [&](char32_t c) { return v.list.find(c) != v.list.npos; }

    const std::vector<Op>& ops()
    {
        static const std::vector<Op> all = {
            {"append(string&)", LIN, false, [](const View& v, Sink& o)
            {
                string t(v.s);
                t.shrink_to_fit();
                try { Guard g(o); ys::append(t, char32_t(A.cp)); }
                catch (...) { if (t != v.s) o.changed = "string"; throw; }
                put(o, v, t);
            }},
            {"append(string&) with capacity", LIN, false, [](const View& v, Sink& o)
            {
                string t;
                t.reserve(v.s.size() + A.off % 6);
                t = v.s;
                try { Guard g(o); ys::append(t, char32_t(A.cp)); }
                catch (...) { if (t != v.s) o.changed = "string"; throw; }
                put(o, v, t);
            }},
            {"replace_invalid_utf8(string&)", LIN, false, [](const View& v, Sink& o)
            {
                string t(v.s);
                try { Guard g(o); (void)ys::replace_invalid_utf8(t, char32_t(A.cp)); }
                catch (...) { if (t != v.s) o.changed = "string"; throw; }
                put(o, v, t);
            }},
            {"unescape(buffer)", LIN, false, [](const View& v, Sink& o)
            {
                struct Buffer { char* p; explicit Buffer(string_view s) : p(static_cast<char*>(malloc(s.size()))) { if (s.size()) memcpy(p, s.data(), s.size()); } ~Buffer() { free(p); } } b(v.s);
                size_t n;
                { Guard g(o); n = ys::unescape(b.p, v.s.size()); }
                if (n > v.s.size()) { o.outside = "returned length"; return; }
                put(o, v, string(b.p, n));
            }},
            {"unescape_next", LIN, false, [](const View& v, Sink& o)
            {
                bool flag = false;
                on_view(v, o, [&](string_view& s) { return ys::unescape_next(s, &flag); }, true);
                put(o, v, flag);
            }},
            {"unescape_next to the end", LIN, false, [](const View& v, Sink& o)
            {
                auto s = v.s;
                u32string r;
                r.reserve(s.size());
                { Guard g(o); while (auto c = ys::unescape_next(s)) r.push_back(*c); }
                put(o, v, r);
            }},
            VOP("remove_utf8_codepoint", ys::remove_utf8_codepoint(s)),
            VOP("remove_last_utf8_codepoint", ys::remove_last_utf8_codepoint(s)),
            VOP("pop_utf8_codepoint", ys::pop_utf8_codepoint(s)),
            VOP("pop_last_utf8_codepoint", ys::pop_last_utf8_codepoint(s)),
            {"decode_next", LIN, false, [](const View& v, Sink& o) { if (A.off < v.s.size()) on_it(v, o, B, B + A.off, [&](auto& it) { return ys::decode_next(it, E); }); }},
            {"decode_prev", LIN, false, [](const View& v, Sink& o) { if (A.off > 0) on_it(v, o, B, B + A.off, [&](auto& it) { return ys::decode_prev(B, it); }); }},
            {"skip_next", LIN, false, [](const View& v, Sink& o) { on_it(v, o, B, B + A.off, [&](auto& it) { return ys::skip_next(it, E); }); }},
            {"skip_prev", LIN, false, [](const View& v, Sink& o) { on_it(v, o, B, B + A.off, [&](auto& it) { return ys::skip_prev(B, it); }); }},
            {"safe_decode_next", LIN, false, [](const View& v, Sink& o) { char32_t c = 0; on_it(v, o, B, B + A.off, [&](auto& it) { return ys::safe_decode_next(it, E, c); }); if (A.off < v.s.size()) put(o, v, c); }},
            {"safe_decode_prev", LIN, false, [](const View& v, Sink& o) { char32_t c = 0; on_it(v, o, B, B + A.off, [&](auto& it) { return ys::safe_decode_prev(B, it, c); }); if (A.off > 0) put(o, v, c); }},
            {"safe_decode_next on a deque", LIN, false, [](const View& v, Sink& o)
            {
                std::deque<char> l(v.s.begin(), v.s.end());
                char32_t c = 0;
                on_it(v, o, l.begin(), std::next(l.begin(), ptrdiff_t(A.off)), [&](auto& it) { return ys::safe_decode_next(it, l.end(), c); });
                if (A.off < v.s.size()) put(o, v, c);
            }},
            {"skip_next to the end", LIN, false, [](const View& v, Sink& o)
            {
                size_t n = 0;
                { Guard g(o); for (auto it = B; ys::skip_next(it, E);) ++n; }
                put(o, v, n);
            }},
            {"skip_prev to the start", LIN, false, [](const View& v, Sink& o)
            {
                size_t n = 0;
                { Guard g(o); for (auto it = E; ys::skip_prev(B, it);) ++n; }
                put(o, v, n);
            }},
            {"decode_prev to the start", LIN, false, [](const View& v, Sink& o)
            {
                size_t n = 0;
                uint32_t h = 0;
                { Guard g(o); for (auto it = E; it != B; ++n) { auto c = ys::decode_prev(B, it); if (c == ys::INVALID_CHAR) ys::skip_prev(B, it); h = h * 31 + c; } }
                put(o, v, n); put(o, v, size_t(h));
            }},

            OP("append(view)", LIN, ys::append(v.s, char32_t(A.cp))),
            OP("contains", LIN, ys::contains(v.s, char32_t(A.cp))),
            OP("count_chars", LIN, ys::count_chars(v.s)),
            OP("count_codepoints", LIN, ys::count_codepoints(v.s)),
            OP("ends_with", LIN, ys::ends_with(v.s, v.c)),
            OP("starts_with", LIN, ys::starts_with(v.s, v.c)),
            OP("find_first", TIMES_C, ys::find_first(v.s, v.c, A.off)),
            OP("find_last", TIMES_C, ys::find_last(v.s, v.c, A.off)),
            OP("find_last without offset", TIMES_C, ys::find_last(v.s, v.c)),
            OP("find_first_newline", LIN, ys::find_first_newline(v.s, A.off)),
            OP("find_last_newline", LIN, ys::find_last_newline(v.s, A.off)),
            OP("find_last_newline without offset", LIN, ys::find_last_newline(v.s)),
            OP("find_first_of(list)", TIMES_LIST, ys::find_first_of(v.s, v.list, A.off)),
            OP("find_last_of(list)", TIMES_LIST, ys::find_last_of(v.s, v.list, A.off)),
            OP("find_first_of(set)", TIMES_SET, ys::find_first_of(v.s, *v.set, A.off)),
            OP("find_last_of(set)", TIMES_SET, ys::find_last_of(v.s, *v.set)),
            OP("find_first_where", TIMES_LIST, ys::find_first_where(v.s, IN_LIST, A.off)),
            OP("find_last_where", TIMES_LIST, ys::find_last_where(v.s, IN_LIST, A.off)),
            OP("get_char_pos", LIN, ys::get_char_pos(v.s, A.i)),
            OP("get_char_range", LIN, ys::get_char_range(v.s, A.i)),
            OP("get_char_substring", LIN, ys::get_char_substring(v.s, A.i, A.j)),
            OP("get_char_substring to the end", LIN, ys::get_char_substring(v.s, A.i)),
            OP("get_codepoint", LIN, ys::get_codepoint(v.s, A.i)),
            OP("get_codepoint_pos", LIN, ys::get_codepoint_pos(v.s, A.i)),
            OP("get_codepoint_substring", LIN, ys::get_codepoint_substring(v.s, A.i, A.j)),
            OP("get_codepoint_substring to the end", LIN, ys::get_codepoint_substring(v.s, A.i)),
            OP("get_next_char_range", LIN, ys::get_next_char_range(v.s, A.off)),
            OP("get_prev_char_range", LIN, ys::get_prev_char_range(v.s, A.off)),
            OP("insert_chars", LIN, ys::insert_chars(v.s, A.i, v.to)),
            OP("insert_char", LIN, ys::insert_char(v.s, A.i, char32_t(A.cp))),
            OP("insert_codepoint", LIN, ys::insert_codepoint(v.s, A.i, char32_t(A.cp))),
            OP("insert_codepoints", LIN, ys::insert_codepoints(v.s, A.i, v.to)),
            OP("is_valid_utf8", LIN, ys::is_valid_utf8(v.s)),
            {"join", LIN, false, [](const View& v, Sink& o)
            {
                std::vector<string_view> parts;
                for (size_t k = 0; k < v.s.size(); k += 1 + A.off) parts.push_back(v.s.substr(k, 1 + A.off));
                string r;
                { Guard g(o); r = ys::join(parts.begin(), parts.end(), v.c); }
                put(o, v, r);
            }},
            OP("replace", TIMES_C, ys::replace(v.s, v.c, v.to, A.limit)),
            OP("replace all", TIMES_C, ys::replace(v.s, v.c, v.to)),
            OP("replace_chars", LIN, ys::replace_chars(v.s, A.i, A.j, v.to)),
            OP("replace_codepoints", LIN, ys::replace_codepoints(v.s, A.i, A.j, v.to)),
            OP("replace_codepoint", LIN, ys::replace_codepoint(v.s, char32_t(A.cp), char32_t(A.cp2), A.limit)),
            OP("replace_invalid_utf8", LIN, ys::replace_invalid_utf8(v.s, char32_t(A.cp))),
            OP("replace_invalid_utf8 by default", LIN, ys::replace_invalid_utf8(v.s)),
            OP("reverse", LIN, ys::reverse(v.s)),
            OP("split(list)", TIMES_LIST, ys::split(v.s, v.list, SP)),
            OP("split(string)", TIMES_C, ys::split(v.s, v.c, SP)),
            OP("split_lines", LIN, ys::split_lines(v.s, SP)),
            OP("split_where", TIMES_LIST, ys::split_where(v.s, [&](string_view s) { return ys::find_first_where(s, IN_LIST).first; }, SP)),
            {"TokenIterator", TIMES_C, false, [](const View& v, Sink& o)
            {
                std::vector<string_view> r;
                auto limit = v.s.size() + 2;
                r.reserve(limit);
                size_t n = 0, tokens = 0, rest = 0;
                {
                    Guard g(o);
                    ys::TokenIterator it(v.s, [&](string_view s) { return ys::find_first(s, v.c); });
                    while (n < limit && it.next()) { r.push_back(it.part()); tokens += it.token().size(); rest += it.remainder().size(); ++n; }
                }
                put(o, v, r); put(o, v, tokens); put(o, v, rest);
            }},
            OP("trim(list)", TIMES_LIST, ys::trim(v.s, v.list)),
            OP("trim", LIN, ys::trim(v.s)),
            OP("trim_end(list)", TIMES_LIST, ys::trim_end(v.s, v.list)),
            OP("trim_end", LIN, ys::trim_end(v.s)),
            OP("trim_start(list)", TIMES_LIST, ys::trim_start(v.s, v.list)),
            OP("trim_start", LIN, ys::trim_start(v.s)),
            OP("trim_where", TIMES_LIST, ys::trim_where(v.s, IN_LIST)),
            OP("trim_end_where", TIMES_LIST, ys::trim_end_where(v.s, IN_LIST)),
            OP("trim_start_where", TIMES_LIST, ys::trim_start_where(v.s, IN_LIST)),
            OP("ci::compare", LIN, ci::compare(v.s, v.c)),
            OP("ci::ends_with", LIN, ci::ends_with(v.s, v.c)),
            OP("ci::equal", LIN, ci::equal(v.s, v.c)),
            OP("ci::equal to itself", LIN, ci::equal(v.s, v.s)),
            OP("ci::find_first", TIMES_C, ci::find_first(v.s, v.c, A.off)),
            OP("ci::find_first_of(list)", TIMES_LIST, ci::find_first_of(v.s, v.list, A.off)),
            OP("ci::find_first_of(set)", TIMES_SET, ci::find_first_of(v.s, *v.set)),
            OP("ci::find_last", TIMES_C, ci::find_last(v.s, v.c, A.off)),
            OP("ci::find_last without offset", TIMES_C, ci::find_last(v.s, v.c)),
            OP("ci::find_last_of(list)", TIMES_LIST, ci::find_last_of(v.s, v.list)),
            OP("ci::find_last_of(set)", TIMES_SET, ci::find_last_of(v.s, *v.set, A.off)),
            OP("ci::less", LIN, ci::less(v.s, v.c)),
            OP("ci::replace", TIMES_C, ci::replace(v.s, v.c, v.to, A.limit)),
            OP("ci::replace all", TIMES_C, ci::replace(v.s, v.c, v.to)),
            OP("ci::split(list)", TIMES_LIST, ci::split(v.s, v.list, SP)),
            OP("ci::split(string)", TIMES_C, ci::split(v.s, v.c, SP)),
            OP("ci::starts_with", LIN, ci::starts_with(v.s, v.c)),
            OP("from_utf32(char)", CP, ys::from_utf32(char32_t(A.cp))),
            OP("from_utf32(string)", LIN, ys::from_utf32(v.list)),
            OP("to_utf32", LIN, ys::to_utf32(v.s)),
            OP("to_lower", LIN, ys::to_lower(v.s)),
            OP("to_title", LIN, ys::to_title(v.s)),
            OP("to_upper", LIN, ys::to_upper(v.s)),
            OP("to_lower(char)", CP, ys::to_lower(char32_t(A.cp))),
            OP("to_title(char)", CP, ys::to_title(char32_t(A.cp))),
            OP("to_upper(char)", CP, ys::to_upper(char32_t(A.cp))),
            OP("to_composed", LIN, ys::to_composed(v.s)),
            OP("to_decomposed", LIN, ys::to_decomposed(v.s)),
            OP("decompose", CP, ys::decompose(char32_t(A.cp))),
            OP("find_first_escapable_char", LIN, ys::find_first_escapable_char(v.s, A.off)),
            OP("has_escapable_chars", LIN, ys::has_escapable_chars(v.s)),
            OP("escape_json", LIN, ys::escape_json(v.s)),
            OP("find_first_escaped_char", LIN, ys::find_first_escaped_char(v.s, A.off)),
            OP("has_escaped_chars", LIN, ys::has_escaped_chars(v.s)),
            {"unescape(string)", LIN, false, [](const View& v, Sink& o)
            {
                string t(v.s), r;
                { Guard g(o); r = ys::unescape(std::move(t)); }
                put(o, v, r);
            }},
            OP("get_char_class", CP, ys::get_char_class(char32_t(A.cp))),
            {"predicates", CP, false, [](const View& v, Sink& o)
            {
                auto c = char32_t(A.cp);
                uint32_t r = 0;
                {
                    Guard g(o);
                    for (bool b : {ys::is_alpha_numeric(c), ys::is_cased_letter(c), ys::is_control(c), ys::is_format(c), ys::is_graphical(c), ys::is_hex_digit(c), ys::is_letter(c), ys::is_lower(c), ys::is_mark(c),
                                   ys::is_newline(c), ys::is_number(c), ys::is_punctuation(c), ys::is_separator(c), ys::is_surrogate(c), ys::is_symbol(c), ys::is_upper(c), ys::is_visible(c), ys::is_whitespace(c)})
                        r = r * 2 + b;
                }
                put(o, v, size_t(r));
            }},
            OP("case_insensitive_compare", CP, ys::case_insensitive_compare(char32_t(A.cp), char32_t(A.cp2))),
            OP("case_insensitive_equal", CP, ys::case_insensitive_equal(char32_t(A.cp), char32_t(A.cp2))),
            OP("case_insensitive_less", CP, ys::case_insensitive_less(char32_t(A.cp), char32_t(A.cp2))),
            OP("contains(list)", LIN, ys::contains(v.list, char32_t(A.cp))),
            OP("case_insensitive_contains(list)", LIN, ys::case_insensitive_contains(v.list, char32_t(A.cp))),
            OP("CodepointSet::contains", TIMES_SET, v.set->contains(char32_t(A.cp))),
            OP("CodepointSet::case_insensitive_contains", TIMES_SET, v.set->case_insensitive_contains(char32_t(A.cp))),
            {"CodepointSet::add", TIMES_SET, false, [](const View& v, Sink& o)
            {
                ys::CodepointSet set;
                {
                    Guard g(o);
                    for (auto& [x, y] : A.ranges) if (x == y) set.add_codepoint(char32_t(x)); else set.add_range(char32_t(x), char32_t(y));
                    set.add_codepoints(v.list);
                }
                for (auto& r : set.ranges) { put(o, v, r.first); put(o, v, r.second); }
                o.result_bytes += set.ranges.size() * 8;
            }},
            {"operator<<(Subrange)", CP, true, [](const View& v, Sink& o)
            {
                std::ostringstream os;
                os.imbue(std::locale::classic());
                { Guard g(o); os << Subrange(A.off, A.splits); }
                if (os.bad()) throw std::bad_alloc(); // (streams keep exceptions to themselves)
                put(o, v, os.str());
            }},
            {"operator<<(CodepointSet)", TIMES_SET, true, [](const View& v, Sink& o)
            {
                std::ostringstream os;
                os.imbue(std::locale::classic());
                { Guard g(o); os << *v.set; }
                if (os.bad()) throw std::bad_alloc();
                put(o, v, os.str());
            }},
            {"string conversions to char8_t", LIN, false, [](const View& v, Sink& o) { auto r = [&] { Guard g(o); return ys::to_string_view(ys::to_u8string_view(v.s)); }(); put(o, v, r); }},
        };
        return all;
    }
}
