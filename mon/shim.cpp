#include "shim.hpp"
#include "fw.hpp"
#include <sstream>
namespace shim
{
    using namespace ystring;
    // Callbacks are the harness's code, not the library's.
    static auto wrap(const Pred& p) { return [&p](char32_t c) { fw::Disarm d; return p(c); }; }

#define B s.begin()
    Step decode_next(string_view s, size_t pos, size_t end)
    {
        auto it = B + pos; auto c = ystring::decode_next(it, B + end);
        return {c, size_t(it - B), true};
    }
    Step decode_prev(string_view s, size_t begin, size_t pos)
    {
        auto it = B + pos; auto c = ystring::decode_prev(B + begin, it);
        return {c, size_t(it - B), true};
    }
    Step skip_next(string_view s, size_t pos, size_t end)
    {
        auto it = B + pos; bool r = ystring::skip_next(it, B + end);
        return {0, size_t(it - B), r};
    }
    Step skip_prev(string_view s, size_t begin, size_t pos)
    {
        auto it = B + pos; bool r = ystring::skip_prev(B + begin, it);
        return {0, size_t(it - B), r};
    }
    Step safe_decode_next(string_view s, size_t pos, size_t end, size_t* after)
    {
        auto it = B + pos; char32_t c = 0x12345678;
        try { bool r = ystring::safe_decode_next(it, B + end, c); return {c, size_t(it - B), r}; }
        catch (...) { if (after) *after = size_t(it - B); throw; }
    }
    Step safe_decode_prev(string_view s, size_t begin, size_t pos, size_t* after)
    {
        auto it = B + pos; char32_t c = 0x12345678;
        try { bool r = ystring::safe_decode_prev(B + begin, it, c); return {c, size_t(it - B), r}; }
        catch (...) { if (after) *after = size_t(it - B); throw; }
    }
    using L = std::list<char>;
#ifdef C32_PLAIN // (some change requires more of iterators than a list has: C32 tells)
    Step list_decode_next(const L& s, size_t pos) { std::string b(s.begin(), s.end()); return decode_next(b, pos, b.size()); }
    Step list_decode_prev(const L& s, size_t pos) { std::string b(s.begin(), s.end()); return decode_prev(b, 0, pos); }
    Step list_skip_next(const L& s, size_t pos) { std::string b(s.begin(), s.end()); return skip_next(b, pos, b.size()); }
    Step list_skip_prev(const L& s, size_t pos) { std::string b(s.begin(), s.end()); return skip_prev(b, 0, pos); }
#else
    static size_t at(const L& s, L::const_iterator it) { return size_t(std::distance(s.begin(), it)); }
    Step list_decode_next(const L& s, size_t pos)
    {
        auto it = std::next(s.begin(), ptrdiff_t(pos)); auto c = ystring::decode_next(it, s.end());
        return {c, at(s, it), true};
    }
    Step list_decode_prev(const L& s, size_t pos)
    {
        auto it = std::next(s.begin(), ptrdiff_t(pos)); auto c = ystring::decode_prev(s.begin(), it);
        return {c, at(s, it), true};
    }
    Step list_skip_next(const L& s, size_t pos)
    {
        auto it = std::next(s.begin(), ptrdiff_t(pos)); bool r = ystring::skip_next(it, s.end());
        return {0, at(s, it), r};
    }
    Step list_skip_prev(const L& s, size_t pos)
    {
        auto it = std::next(s.begin(), ptrdiff_t(pos)); bool r = ystring::skip_prev(s.begin(), it);
        return {0, at(s, it), r};
    }
#endif
    Step ptr_decode_next(string_view s, size_t pos)
    {
        auto b = reinterpret_cast<const unsigned char*>(s.data()); auto it = b + pos; auto c = ystring::decode_next(it, b + s.size());
        return {c, size_t(it - b), true};
    }
    Step ptr_decode_prev(string_view s, size_t pos)
    {
        auto b = reinterpret_cast<const signed char*>(s.data()); auto it = b + pos; auto c = ystring::decode_prev(b, it);
        return {c, size_t(it - b), true};
    }
    bool remove_utf8_codepoint(string_view& s) { return ystring::remove_utf8_codepoint(s); }
    bool remove_last_utf8_codepoint(string_view& s) { return ystring::remove_last_utf8_codepoint(s); }
    std::optional<char32_t> pop_utf8_codepoint(string_view& s) { return ystring::pop_utf8_codepoint(s); }
    std::optional<char32_t> pop_last_utf8_codepoint(string_view& s) { return ystring::pop_last_utf8_codepoint(s); }

    std::pair<Subrange, char32_t> find_first_where(string_view s, const Pred& p, size_t o) { return ystring::find_first_where(s, wrap(p), o); }
    std::pair<Subrange, char32_t> find_first_where0(string_view s, const Pred& p) { return ystring::find_first_where(s, wrap(p)); }
    std::pair<Subrange, char32_t> find_last_where(string_view s, const Pred& p, size_t o) { return ystring::find_last_where(s, wrap(p), o); }
    std::pair<Subrange, char32_t> find_last_where0(string_view s, const Pred& p) { return ystring::find_last_where(s, wrap(p)); }
    string_view trim_where(string_view s, const Pred& p) { return ystring::trim_where(s, wrap(p)); }
    string_view trim_start_where(string_view s, const Pred& p) { return ystring::trim_start_where(s, wrap(p)); }
    string_view trim_end_where(string_view s, const Pred& p) { return ystring::trim_end_where(s, wrap(p)); }

    static auto wrapf(const Finder& f) { return [&f](string_view s) { fw::Disarm d; return f(s); }; }
    std::vector<string_view> split_where(string_view s, const Finder& f, SplitParams p) { return ystring::split_where(s, wrapf(f), p); }
    std::vector<Token> tokens(string_view s, const Finder& f, size_t max, int* false_results)
    {
        std::vector<Token> r;
        ystring::TokenIterator it(s, wrapf(f));
        while (r.size() < max && it.next())
            r.push_back({it.part(), it.token(), it.remainder(), bool(it)});
        // Once exhausted it stays exhausted.
        if (r.size() < max)
            for (int i = 0; i < 3; ++i)
                if (!it.next()) ++*false_results;
        return r;
    }
    std::string join(const std::vector<std::string>& v, string_view d) { return ystring::join(v.begin(), v.end(), d); }
    std::string join_views(const std::vector<string_view>& v, string_view d) { return ystring::join(v.begin(), v.end(), d); }
#ifdef C32_PLAIN
    std::string join_list(const std::list<std::string>& v, string_view d) { return join({v.begin(), v.end()}, d); }
#else
    std::string join_list(const std::list<std::string>& v, string_view d) { return ystring::join(v.begin(), v.end(), d); }
#endif
    std::string join_default(const std::vector<string_view>& v) { return ystring::join(v.data(), v.data() + v.size()); }

    int32_t ci_compare(char32_t a, char32_t b) { return case_insensitive_compare(a, b); }
    bool ci_equal(char32_t a, char32_t b) { return case_insensitive_equal(a, b); }
    bool ci_less(char32_t a, char32_t b) { return case_insensitive_less(a, b); }
    int32_t ci_compare_obj(char32_t a, char32_t b) { return CaseInsensitiveCompare()(a, b); }
    bool ci_equal_obj(char32_t a, char32_t b) { return CaseInsensitiveEqual()(a, b); }
    bool ci_less_obj(char32_t a, char32_t b) { return CaseInsensitiveLess()(a, b); }

    const char* const predicate_names[] = {"is_alpha_numeric", "is_cased_letter", "is_control", "is_format", "is_graphical", "is_hex_digit", "is_letter", "is_lower", "is_mark",
                                           "is_newline", "is_number", "is_punctuation", "is_separator", "is_surrogate", "is_symbol", "is_upper", "is_visible", "is_whitespace"};
    uint32_t predicates(char32_t c)
    {
        uint32_t r = 0; int i = 0;
        auto add = [&](bool b) { r |= uint32_t(b) << i++; };
        add(is_alpha_numeric(c)); add(is_cased_letter(c)); add(is_control(c)); add(is_format(c)); add(is_graphical(c)); add(is_hex_digit(c)); add(is_letter(c));
        add(is_lower(c)); add(is_mark(c)); add(is_newline(c)); add(is_number(c)); add(is_punctuation(c)); add(is_separator(c)); add(is_surrogate(c)); add(is_symbol(c));
        add(is_upper(c)); add(is_visible(c)); add(is_whitespace(c));
        return r;
    }
    std::string print(const Subrange& s) { std::ostringstream os; os << s; return os.str(); }
    std::string print(const CodepointSet& s) { std::ostringstream os; os << s; return os.str(); }
    string_view roundtrip_u8(string_view s) { return to_string_view(to_u8string_view(s)); }
}
