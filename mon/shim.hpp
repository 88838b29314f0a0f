// The library's public function templates and inline functions, compiled in
// one instrumented translation unit, behind plain functions.
#pragma once
#include <functional>
#include <list>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <Ystring/Ystring.hpp>
#include <Ystring/Escape.hpp>

namespace shim
{
    using std::string_view;
    using ystring::Subrange;
    using Pred = std::function<bool(char32_t)>;

    struct Step { char32_t ch; size_t pos; bool result; };
    // pos is the position after the call; result is the function's result, if bool.
    Step decode_next(string_view s, size_t pos, size_t end);
    Step decode_prev(string_view s, size_t begin, size_t pos);
    Step skip_next(string_view s, size_t pos, size_t end);
    Step skip_prev(string_view s, size_t begin, size_t pos);
    Step safe_decode_next(string_view s, size_t pos, size_t end, size_t* pos_after_throw = nullptr);
    Step safe_decode_prev(string_view s, size_t begin, size_t pos, size_t* pos_after_throw = nullptr);
    // The same with other kinds of iterators (list<char>, const char*).
    Step list_decode_next(const std::list<char>& s, size_t pos);
    Step list_decode_prev(const std::list<char>& s, size_t pos);
    Step list_skip_next(const std::list<char>& s, size_t pos);
    Step list_skip_prev(const std::list<char>& s, size_t pos);
    Step ptr_decode_next(string_view s, size_t pos);
    Step ptr_decode_prev(string_view s, size_t pos);
    bool remove_utf8_codepoint(string_view& s);
    bool remove_last_utf8_codepoint(string_view& s);
    std::optional<char32_t> pop_utf8_codepoint(string_view& s);
    std::optional<char32_t> pop_last_utf8_codepoint(string_view& s);

    std::pair<Subrange, char32_t> find_first_where(string_view s, const Pred& p, size_t offset);
    std::pair<Subrange, char32_t> find_first_where0(string_view s, const Pred& p);
    std::pair<Subrange, char32_t> find_last_where(string_view s, const Pred& p, size_t offset);
    std::pair<Subrange, char32_t> find_last_where0(string_view s, const Pred& p);
    string_view trim_where(string_view s, const Pred& p);
    string_view trim_start_where(string_view s, const Pred& p);
    string_view trim_end_where(string_view s, const Pred& p);

    using Finder = std::function<Subrange(string_view)>;
    std::vector<string_view> split_where(string_view s, const Finder& f, ystring::SplitParams p);
    struct Token { string_view part, token, remainder; bool has_token; };
    std::vector<Token> tokens(string_view s, const Finder& f, size_t max, int* false_results);
    std::string join(const std::vector<std::string>& v, string_view delim);
    std::string join_views(const std::vector<string_view>& v, string_view delim);
    std::string join_list(const std::list<std::string>& v, string_view delim);
    std::string join_default(const std::vector<string_view>& v);

    int32_t ci_compare(char32_t a, char32_t b);
    bool ci_equal(char32_t a, char32_t b);
    bool ci_less(char32_t a, char32_t b);
    int32_t ci_compare_obj(char32_t a, char32_t b);
    bool ci_equal_obj(char32_t a, char32_t b);
    bool ci_less_obj(char32_t a, char32_t b);

    uint32_t predicates(char32_t c); // bit i: i-th predicate below
    extern const char* const predicate_names[];
    constexpr int N_PREDICATES = 18;

    std::string print(const Subrange& s);
    std::string print(const ystring::CodepointSet& s);
    string_view roundtrip_u8(string_view s);
}
