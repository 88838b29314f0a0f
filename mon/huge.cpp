// C30: texts around the limits of integer types and of usual buffers. A text is
// P, then k times the unit U, then S, so that every result is known in advance.
// Texts beyond 2^32 bytes are made by mapping the same memory over and over.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <chrono>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include "model.hpp"
#include "uni.hpp"
#include <Ystring/Ystring.hpp>
#include <Ystring/CaseInsensitive.hpp>
#include <Ystring/CharClass.hpp>
#include <Ystring/DecodeUtf8.hpp>
#include <Ystring/TokenIterator.hpp>
#include <Ystring/Unescape.hpp>
#include <Ystring/Escape.hpp>
namespace ys = ystring;
namespace ci = ystring::case_insensitive;
using std::string;
using std::string_view;
using std::u32string;
using ystring::Subrange;
using model::Range;

static uint64_t calls, max_offset, max_count, max_index, bytes_read;
static const char* job_name = "";
static string shape;

static string esc(string_view s)
{
    string r = "\"";
    for (size_t i = 0; i < s.size() && i < 60; ++i) { char b[8]; auto c = uint8_t(s[i]); snprintf(b, sizeof b, c >= 32 && c < 127 && c != '"' && c != '\\' ? "%c" : "\\x%02X", c); r += b; }
    return r + (s.size() > 60 ? "\"... (" + std::to_string(s.size()) + " bytes)" : "\"");
}
static void fail(const char* fn, const string& got, const string& expected)
{
    printf("VIOL %s %s of %s: got %s, expected %s\n", fn, job_name, shape.c_str(), got.c_str(), expected.c_str());
    fflush(stdout);
    _Exit(3);
}
static const char* cur = "";
static void on_terminate()
{
    string what = "an exception";
    if (auto e = std::current_exception()) try { std::rethrow_exception(e); } catch (std::exception& x) { what = string(typeid(x).name()) + ": " + x.what(); } catch (...) {}
    fail(cur, what, "a result");
}
template <class T> static string show(const T& v)
{
    if constexpr (std::is_same_v<T, Subrange>) return "{" + std::to_string(v.offset) + ", " + std::to_string(v.length) + "}";
    else if constexpr (std::is_convertible_v<T, string_view>) return esc(v);
    else return std::to_string(v);
}
static void seen(size_t v) { max_offset = std::max<uint64_t>(max_offset, v); }
template <class T, class E> static void same(const char* fn, const T& got, const E& expected)
{
    ++calls;
    if constexpr (std::is_same_v<T, size_t>) if (expected != string::npos) max_count = std::max<uint64_t>(max_count, expected);
    if (!(got == T(expected))) fail(fn, show(got), show(T(expected)));
}
static void range(const char* fn, const Subrange& got, size_t off, size_t len)
{
    ++calls;
    seen(off + len);
    if (len ? got.offset != off || got.length != len : got.length != 0) fail(fn, show(got), show(Subrange(off, len)));
}
static void found(const char* fn, const std::pair<Subrange, char32_t>& got, size_t off, size_t len, char32_t c)
{
    range(fn, got.first, off, len);
    if (got.second != c) fail(fn, std::to_string(uint32_t(got.second)), std::to_string(uint32_t(c)));
}

// P U^k S
struct Text
{
    string P, U, S;
    size_t k, n;
    char* p = nullptr;
    char* base = nullptr;
    size_t mapped = 0;
    bool by_mapping;
    static constexpr size_t BLOCK = 1 << 24, EDGE = 1 << 16;

    Text(string P_, string U_, string S_, size_t bytes)
        : P(std::move(P_)), U(std::move(U_)), S(std::move(S_))
    {
        by_mapping = bytes > (size_t(1) << 28);
        k = bytes / U.size();
        if (by_mapping)
        {
            // Whole blocks of whole units
            if (BLOCK % U.size()) { printf("ERROR unit size\n"); _Exit(2); }
            size_t blocks = (bytes + BLOCK - 1) / BLOCK;
            k = blocks * (BLOCK / U.size());
            int fd = memfd_create("block", 0);
            if (fd < 0 || ftruncate(fd, BLOCK)) { printf("ERROR memfd\n"); _Exit(2); }
            auto* b = static_cast<char*>(mmap(nullptr, BLOCK, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
            for (size_t i = 0; i < BLOCK; i += U.size()) memcpy(b + i, U.data(), U.size());
            munmap(b, BLOCK);
            mapped = EDGE + blocks * BLOCK + EDGE + EDGE;
            base = static_cast<char*>(mmap(nullptr, mapped, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (base == MAP_FAILED) { printf("ERROR address space\n"); _Exit(2); }
            mprotect(base, EDGE, PROT_READ | PROT_WRITE);
            memset(base, 0xA5, EDGE);
            auto* q = base + EDGE;
            for (size_t i = 0; i < blocks; ++i, q += BLOCK)
                if (mmap(q, BLOCK, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) != q) { printf("ERROR map\n"); _Exit(2); }
            close(fd);
            mprotect(q, EDGE, PROT_READ | PROT_WRITE);
            memset(q, 0xA5, EDGE);
            memcpy(q, S.data(), S.size());
            p = base + EDGE - P.size();
            memcpy(p, P.data(), P.size());
        }
        else
        {
            mapped = P.size() + k * U.size() + S.size();
            base = p = static_cast<char*>(malloc(mapped));
            memcpy(p, P.data(), P.size());
            for (size_t i = 0; i < k; ++i) memcpy(p + P.size() + i * U.size(), U.data(), U.size());
            memcpy(p + P.size() + k * U.size(), S.data(), S.size());
        }
        n = P.size() + k * U.size() + S.size();
        shape = esc(P) + " + " + std::to_string(k) + " x " + esc(U) + " + " + esc(S);
        bytes_read = std::max<uint64_t>(bytes_read, n);
    }
    Text(const Text&) = delete;
    ~Text() { if (by_mapping) munmap(base, mapped); else free(base); }
    operator string_view() const { return {p, n}; }
    string_view v() const { return {p, n}; }
    size_t end_u() const { return n - S.size(); }
    size_t ncp() const { return model::parse(P).size() + k * model::parse(U).size() + model::parse(S).size(); }
    // (U and S start with something that isn't a mark.)
    size_t nchars() const { return model::chars(P).size() + k * model::chars(U).size() + model::chars(S).size(); }
};
// The result must be a, then k times u, then s.
template <class Str>
static void composed_of(const char* fn, const Str& got, const Str& a, const Str& u, size_t k, const Str& s)
{
    ++calls;
    auto size = a.size() + k * u.size() + s.size();
    max_count = std::max<uint64_t>(max_count, size);
    if (got.size() != size) fail(fn, "a result of size " + std::to_string(got.size()), std::to_string(size));
    using V = std::basic_string_view<typename Str::value_type>;
    V g(got);
    auto bad = [&](size_t at) { fail(fn, "something else near position " + std::to_string(at), "the unchanged pattern"); };
    if (g.substr(0, a.size()) != a) bad(0);
    if (!u.empty() && k)
    {
        // Compare in doublings with itself.
        auto m = g.substr(a.size(), k * u.size());
        if (m.substr(0, u.size()) != u) bad(a.size());
        for (size_t i = u.size(); i < m.size();)
        {
            auto c = std::min({i, m.size() - i, size_t(1) << 20});
            c -= c % u.size();
            if (memcmp(m.data() + i, m.data(), c * sizeof(m[0]))) bad(a.size() + i);
            i += c;
        }
    }
    if (g.substr(g.size() - s.size()) != s) bad(g.size() - s.size());
}
static u32string u32(string_view s) { return model::cps(s); }

static const char SMILE[] = "\xF0\x9F\x98\x80";
static const char32_t SMILE32 = 0x1F600;
#define CALL(fn, ...) (cur = fn, __VA_ARGS__)

struct Job { const char* name; int kind; std::function<void(size_t)> f; }; // kind 0: reads only, 1: makes long results, 2: reads only but slowly, 3: copies, slowly, 4: like 2, with more than 2^31 units in the quick check, 5: like 0, and likewise
static std::vector<Job> jobs()
{
    std::vector<Job> r;
    auto add = [&](const char* n, int kind, std::function<void(size_t)> f) { r.push_back({n, kind, std::move(f)}); };

    add("count_codepoints of one-byte", 0, [](size_t b) { Text t("\xC3\xA5z", "a", "\xF0\x9F\x98\x80", b); same("count_codepoints", CALL("count_codepoints", ys::count_codepoints(t)), t.ncp()); });
    add("count_codepoints of malformed", 2, [](size_t b) { Text t("z", "\xFF", "z", b); same("count_codepoints", CALL("count_codepoints", ys::count_codepoints(t)), t.n); });
    add("is_valid_utf8", 2, [](size_t b)
    {
        { Text t("z", SMILE, "\xC3\xA5", b); same("is_valid_utf8", CALL("is_valid_utf8", ys::is_valid_utf8(t)), true); same("is_valid_utf8", CALL("is_valid_utf8", ys::is_valid_utf8(t.v().substr(0, t.n - 1))), false); }
        { Text t("z", SMILE, "\xA5", b); same("is_valid_utf8", CALL("is_valid_utf8", ys::is_valid_utf8(t)), false); }
    });
    for (int wide = 0; wide < 2; ++wide)
    {
        string U = wide ? SMILE : "a";
        add(wide ? "code point indices, four-byte" : "code point indices, one-byte", wide ? 2 : 0, [U](size_t b)
        {
            Text t("\xC3\xA5z", U, "\xE2\x82\xAC!", b);
            auto n = ptrdiff_t(t.ncp());
            max_index = std::max(max_index, uint64_t(n));
            same("get_codepoint_pos", CALL("get_codepoint_pos", ys::get_codepoint_pos(t, n - 2)), t.end_u());
            same("get_codepoint_pos", CALL("get_codepoint_pos", ys::get_codepoint_pos(t, -n + 2)), t.P.size());
            same("get_codepoint_pos", CALL("get_codepoint_pos", ys::get_codepoint_pos(t, n)), t.n);
        });
        if (wide) add("code point indices at the ends", 0, [U](size_t b)
        {
            Text t("\xC3\xA5z", U, "\xE2\x82\xAC!", b);
            auto n = ptrdiff_t(t.ncp());
            {
                same("get_codepoint_pos", CALL("get_codepoint_pos", ys::get_codepoint_pos(t, n + 1)), string::npos);
                same("get_codepoint_pos", CALL("get_codepoint_pos", ys::get_codepoint_pos(t, -n)), size_t(0));
                same("get_codepoint_pos", CALL("get_codepoint_pos", ys::get_codepoint_pos(t, -n - 1)), string::npos);
            }
        });
        add(wide ? "get_codepoint, four-byte" : "get_codepoint, one-byte", wide ? 2 : 0, [U, wide](size_t b)
        {
            Text t("\xC3\xA5z", U, "\xE2\x82\xAC!", b);
            auto n = ptrdiff_t(t.ncp());
            found("get_codepoint", CALL("get_codepoint", ys::get_codepoint(t, n - 2)), t.end_u(), 3, 0x20AC);
            found("get_codepoint", CALL("get_codepoint", ys::get_codepoint(t, -n + 1)), 2, 1, 'z');
            found("get_codepoint", CALL("get_codepoint", ys::get_codepoint(t, -1)), t.n - 1, 1, '!');
            if (wide) found("get_codepoint", CALL("get_codepoint", ys::get_codepoint(t, n)), 0, 0, ys::INVALID_CHAR);
        });
        add(wide ? "get_codepoint_substring, four-byte" : "get_codepoint_substring, one-byte", 0, [U](size_t b)
        {
            Text t("\xC3\xA5z", U, "\xE2\x82\xAC!", b);
            auto n = ptrdiff_t(t.ncp());
            auto v = CALL("get_codepoint_substring", ys::get_codepoint_substring(t, n - 2));
            same("get_codepoint_substring", v, string_view(t.S));
            same("get_codepoint_substring", size_t(v.data() - t.p), t.end_u());
            v = CALL("get_codepoint_substring", ys::get_codepoint_substring(t, 1, -2));
            same("get_codepoint_substring", size_t(v.data() - t.p), size_t(2));
            same("get_codepoint_substring", v.size(), t.end_u() - 2);
        });
    }
    add("count_chars", 2, [](size_t b) { Text t("\xC3\xA5z", SMILE, "e\xCC\x81", b); same("count_chars", CALL("count_chars", ys::count_chars(t)), t.nchars()); });
    add("count_chars of one-byte", 0, [](size_t b) { Text t("\xC3\xA5z", "a", "e\xCC\x81", b); same("count_chars", CALL("count_chars", ys::count_chars(t)), t.nchars()); });
    // Marks: the whole text is one character.
    add("one long character", 0, [](size_t b)
    {
        Text t("ze", "\xF3\xA0\x84\x80", "y", b);
        range("get_next_char_range", CALL("get_next_char_range", ys::get_next_char_range(t, 1)), 1, t.n - 2);
    });
    add("one long character, backwards", 2, [](size_t b)
    {
        Text t("ze", "\xF3\xA0\x84\x80", "y", b);
        range("get_prev_char_range", CALL("get_prev_char_range", ys::get_prev_char_range(t, t.n - 1)), 1, t.n - 2);
    });
    add("one long character, by index", 2, [](size_t b)
    {
        Text t("ze", "\xF3\xA0\x84\x80", "y", b);
        range("get_char_range", CALL("get_char_range", ys::get_char_range(t, 1)), 1, t.n - 2);
        range("get_char_range", CALL("get_char_range", ys::get_char_range(t, -2)), 1, t.n - 2);
        same("get_char_pos", CALL("get_char_pos", ys::get_char_pos(t, 2)), t.n - 1);
        same("count_chars", CALL("count_chars", ys::count_chars(t)), size_t(3));
    });
    add("character index from the start", 0, [](size_t b)
    {
        Text t("\xC3\xA5z", SMILE, "e\xCC\x81!", b);
        auto n = ptrdiff_t(t.nchars());
        same("get_char_pos", CALL("get_char_pos", ys::get_char_pos(t, n - 2)), t.end_u());
    });
    add("character index from the end", 0, [](size_t b)
    {
        Text t("\xC3\xA5z", SMILE, "e\xCC\x81!", b);
        auto n = ptrdiff_t(t.nchars());
        same("get_char_pos", CALL("get_char_pos", ys::get_char_pos(t, -n + 2)), t.P.size());
    });
    add("character ranges", 2, [](size_t b)
    {
        Text t("\xC3\xA5z", SMILE, "e\xCC\x81!", b);
        auto n = ptrdiff_t(t.nchars());
        range("get_char_range", CALL("get_char_range", ys::get_char_range(t, n - 2)), t.end_u(), 3);
        range("get_char_range", CALL("get_char_range", ys::get_char_range(t, -n + 1)), 2, 1);
    });
    add("character substrings", 0, [](size_t b)
    {
        Text t("\xC3\xA5z", SMILE, "e\xCC\x81!", b);
        auto n = ptrdiff_t(t.nchars());
        (void)n;
        auto v = CALL("get_char_substring", ys::get_char_substring(t, 1, -2));
        same("get_char_substring", size_t(v.data() - t.p), size_t(2));
        same("get_char_substring", v.size(), t.end_u() - 2);
    });
    add("character substrings from the start", 2, [](size_t b)
    {
        Text t("\xC3\xA5z", SMILE, "e\xCC\x81!", b);
        auto n = ptrdiff_t(t.nchars());
        auto v = CALL("get_char_substring", ys::get_char_substring(t, n - 2));
        same("get_char_substring", v, string_view(t.S));
        seen(size_t(v.data() - t.p));
    });
    add("character index from the start, one-byte", 4, [](size_t b)
    {
        Text t("\xC3\xA5z", "a", "e\xCC\x81!", b);
        auto n = ptrdiff_t(t.nchars());
        same("get_char_pos", CALL("get_char_pos", ys::get_char_pos(t, n - 2)), t.end_u());
        same("get_char_pos", CALL("get_char_pos", ys::get_char_pos(t, n + 1)), string::npos);
    });
    add("character index from the end, one-byte", 4, [](size_t b)
    {
        Text t("\xC3\xA5z", "a", "e\xCC\x81!", b);
        auto n = ptrdiff_t(t.nchars());
        same("get_char_pos", CALL("get_char_pos", ys::get_char_pos(t, -n + 2)), t.P.size());
        same("get_char_pos", CALL("get_char_pos", ys::get_char_pos(t, -n - 1)), string::npos);
    });
    add("character range from the start, one-byte", 4, [](size_t b)
    {
        Text t("\xC3\xA5z", "a", "e\xCC\x81!", b);
        auto n = ptrdiff_t(t.nchars());
        range("get_char_range", CALL("get_char_range", ys::get_char_range(t, n - 2)), t.end_u(), 3);
    });
    add("character range from the end, one-byte", 4, [](size_t b)
    {
        Text t("\xC3\xA5z", "a", "e\xCC\x81!", b);
        auto n = ptrdiff_t(t.nchars());
        range("get_char_range", CALL("get_char_range", ys::get_char_range(t, -n + 1)), 2, 1);
    });
    add("character substring, one-byte", 4, [](size_t b)
    {
        Text t("\xC3\xA5z", "a", "e\xCC\x81!", b);
        auto n = ptrdiff_t(t.nchars());
        auto v = CALL("get_char_substring", ys::get_char_substring(t, 1, n - 2));
        same("get_char_substring", size_t(v.data() - t.p), size_t(2));
        same("get_char_substring", v.size(), t.end_u() - 2);
    });
    add("character substring from the end, one-byte", 4, [](size_t b)
    {
        Text t("\xC3\xA5z", "a", "e\xCC\x81!", b);
        auto n = ptrdiff_t(t.nchars());
        auto v = CALL("get_char_substring", ys::get_char_substring(t, -n + 1, -2));
        same("get_char_substring", size_t(v.data() - t.p), size_t(2));
        same("get_char_substring", v.size(), t.end_u() - 2);
    });
    add("find_first", 0, [](size_t b)
    {
        Text t("NEE", "N", "NEEDLE-", b);
        range("find_first", CALL("find_first", ys::find_first(t, "NEEDLE")), t.end_u(), 6);
        range("find_first", CALL("find_first", ys::find_first(t, "NEEDLE", t.end_u() - 9)), t.end_u(), 6);
        range("find_first", CALL("find_first", ys::find_first(t, "NEEDLE", t.end_u() + 1)), 0, 0);
        same("starts_with", CALL("starts_with", ys::starts_with(t, "NEE")), true);
        same("ends_with", CALL("ends_with", ys::ends_with(t, "DLE-")), true);
        same("starts_with", CALL("starts_with", ys::starts_with(t, t.v().substr(0, t.n - 1))), true);
        same("ends_with", CALL("ends_with", ys::ends_with(t, t.v().substr(1))), true);
        same("starts_with", CALL("starts_with", ys::starts_with("NEE", t)), false);
        same("ends_with", CALL("ends_with", ys::ends_with("DLE-", t)), false);
        range("find_first", CALL("find_first", ys::find_first("NEE", t)), 0, 0);
        range("find_last", CALL("find_last", ys::find_last("NEE", t)), 0, 0);
    });
    add("find_last", 0, [](size_t b)
    {
        Text t("z-NEEDLE", "E", "Edge", b);
        range("find_last", CALL("find_last", ys::find_last(t, "NEEDLE")), 2, 6);
        range("find_last", CALL("find_last", ys::find_last(t, "EE", t.n)), t.end_u() - 1, 2);
        range("find_last", CALL("find_last", ys::find_last(t, "EE", t.n - 5)), t.n - 7, 2);
        range("find_last", CALL("find_last", ys::find_last(t, "NEEDLF", t.n - 5)), 0, 0);
    });
    add("find_first of a long needle", 5, [](size_t b)
    {
        Text t("xx", "N", "Needle", b);
        range("find_first", CALL("find_first", ys::find_first(t, t.v().substr(1))), 1, t.n - 1);
    });
    add("find_last of a long needle", 5, [](size_t b)
    {
        Text t("xx", "N", "Needle", b);
        range("find_last", CALL("find_last", ys::find_last(t, t.v().substr(2))), 2, t.n - 2);
        range("find_last", CALL("find_last", ys::find_last(t, t.v().substr(2), t.n - 1)), 0, 0);
    });
    add("splitting at and replacing a long needle", 5, [](size_t b)
    {
        Text t("xx", "N", "Needle", b);
        auto v = CALL("split(string)", ys::split(t, t.v().substr(1, t.n - 2)));
        same("split(string)", v.size(), size_t(2));
        same("split(string)", v[0], string_view("x"));
        same("split(string)", v[1], string_view("e"));
        same("replace", string_view(CALL("replace", ys::replace(t, t.v().substr(1, t.n - 2), "<>"))), string_view("x<>e"));
        same("replace", string_view(CALL("replace", ys::replace(t, t.v().substr(1, t.n - 2), "<>", -1))), string_view("x<>e"));
    });
    add("ci::find_first of a long needle", 4, [](size_t b)
    {
        Text t("xx", "N", "Needle", b);
        range("ci::find_first", CALL("ci::find_first", ci::find_first(t, t.v().substr(1))), 1, t.n - 1);
    });
    add("ci::find_last of a long needle", 4, [](size_t b)
    {
        Text t("xx", "N", "Needle", b);
        range("ci::find_last", CALL("ci::find_last", ci::find_last(t, t.v().substr(2))), 2, t.n - 2);
    });
    add("find_first_of", 0, [](size_t b)
    {
        Text t("z", SMILE, "\xE2\x82\xAC!", b);
        found("find_first_of(list)", CALL("find_first_of(list)", ys::find_first_of(t, U"!\u20AC")), t.end_u(), 3, 0x20AC);
        found("find_first_of(list)", CALL("find_first_of(list)", ys::find_first_of(t, U"!\U0001F600", t.end_u() - 4)), t.end_u() - 4, 4, SMILE32);
        found("find_first_of(list)", CALL("find_first_of(list)", ys::find_first_of(t, U"z", t.end_u() - 4)), 0, 0, ys::INVALID_CHAR);
        same("contains", CALL("contains", ys::contains(t, U'!')), true);
    });
    add("find_first_of a set", 2, [](size_t b)
    {
        Text t("z", SMILE, "\xE2\x82\xAC!", b);
        ys::CodepointSet set;
        set.add_range(U'!', U'0');
        found("find_first_of(set)", CALL("find_first_of(set)", ys::find_first_of(t, set)), t.end_u() + 3, 1, '!');
        found("ci::find_first_of(set)", CALL("ci::find_first_of(set)", ci::find_first_of(t, set, t.end_u())), t.end_u() + 3, 1, '!');
        found("find_last_of(set)", CALL("find_last_of(set)", ys::find_last_of(t, set)), t.end_u() + 3, 1, '!');
        found("find_first_where", CALL("find_first_where", ys::find_first_where(t, [](char32_t c) { return c == '!'; })), t.end_u() + 3, 1, '!');
    });
    add("find_last_of", 0, [](size_t b)
    {
        Text t("z", SMILE, "\xE2\x82\xAC!", b);
        found("find_last_of(list)", CALL("find_last_of(list)", ys::find_last_of(t, U"z")), 0, 1, 'z');
        found("find_last_of(list)", CALL("find_last_of(list)", ys::find_last_of(t, U"z\U0001F600")), t.end_u() - 4, 4, SMILE32);
        found("find_last_of(list)", CALL("find_last_of(list)", ys::find_last_of(t, U"z\U0001F600", t.end_u() - 4)), t.end_u() - 8, 4, SMILE32);
        found("find_last_where", CALL("find_last_where", ys::find_last_where(t, [](char32_t c) { return c == 'z'; })), 0, 1, 'z');
        found("find_last_where", CALL("find_last_where", ys::find_last_where(t, [](char32_t c) { return c == '!'; })), t.n - 1, 1, '!');
    });
    add("ci::find_of", 2, [](size_t b)
    {
        Text t("z", SMILE, "\xC3\x85!", b);
        found("ci::find_first_of(list)", CALL("ci::find_first_of(list)", ci::find_first_of(t, U"\u00E5")), t.end_u(), 2, 0xC5);
        found("ci::find_last_of(list)", CALL("ci::find_last_of(list)", ci::find_last_of(t, U"Z")), 0, 1, 'z');
    });
    add("newlines", 0, [](size_t b)
    {
        Text t("a\r\n", SMILE, "\r\nzz", b);
        range("find_first_newline", CALL("find_first_newline", ys::find_first_newline(t, 3)), t.end_u(), 2);
        range("find_first_newline", CALL("find_first_newline", ys::find_first_newline(t, t.end_u() + 1)), t.end_u() + 1, 1);
        range("find_last_newline", CALL("find_last_newline", ys::find_last_newline(t)), t.end_u(), 2);
        range("find_last_newline", CALL("find_last_newline", ys::find_last_newline(t, t.end_u() + 1)), t.end_u(), 1);
        range("find_last_newline", CALL("find_last_newline", ys::find_last_newline(t, t.end_u())), 1, 2);
    });
    add("trim", 0, [](size_t b)
    {
        Text t("\t", " ", "x", b);
        auto v = CALL("trim_start", ys::trim_start(t));
        same("trim_start", v, string_view("x"));
        same("trim_start", size_t(v.data() - t.p), t.n - 1);
        v = CALL("trim_where", ys::trim_where(t, [](char32_t c) { return c != 'x'; }));
        same("trim_where", v, string_view("x"));
    });
    add("trim_end", 0, [](size_t b)
    {
        Text t("\tx", " ", "\t\n", b);
        auto v = CALL("trim_end", ys::trim_end(t));
        same("trim_end", v, string_view("\tx"));
    });
    add("trim_end_where", 2, [](size_t b)
    {
        Text t("\tx", " ", "\t\n", b);
        auto v = CALL("trim_end_where", ys::trim_end_where(t, [](char32_t c) { return c <= ' '; }));
        same("trim_end_where", v, string_view("\tx"));
    });
    add("trim of a long text", 0, [](size_t b)
    {
        Text o("\tx", SMILE, "\t\n", b);
        auto v = CALL("trim", ys::trim(o));
        same("trim", size_t(v.data() - o.p), size_t(1));
        same("trim", v.size(), o.n - 3);
    });
    auto parts = [](const char* fn, const Text& t, const std::vector<string_view>& got, std::vector<Range> e)
    {
        ++calls;
        if (got.size() != e.size()) fail(fn, std::to_string(got.size()) + " parts", std::to_string(e.size()));
        for (size_t i = 0; i < e.size(); ++i)
        {
            seen(e[i].end());
            if (got[i].size() != e[i].len || (e[i].len && got[i].data() != t.p + e[i].off)) fail(fn, "part " + std::to_string(i) + " " + show(Subrange(size_t(got[i].data() - t.p), got[i].size())), show(Subrange(e[i].off, e[i].len)));
        }
    };
    add("split by string", 0, [parts](size_t b)
    {
        Text t("a,;b", SMILE, ",;c,;", b);
        auto e = t.end_u();
        parts("split(string)", t, CALL("split(string)", ys::split(t, ",;")), {{0, 1}, {3, e - 3}, {e + 2, 1}, {t.n, 0}});
        parts("split(string)", t, CALL("split(string)", ys::split(t, ",;", {1, false})), {{0, 1}, {3, t.n - 3}});
        std::vector<Range> got;
        ys::TokenIterator it(t.v(), [](string_view s) { return ys::find_first(s, ",;"); });
        cur = "TokenIterator";
        while (it.next())
        {
            got.push_back({size_t(it.part().data() - t.p), it.part().size()});
            if (it.token().empty()) break;
            same("TokenIterator", size_t(it.token().data() - t.p), got.back().end());
            same("TokenIterator", it.remainder().size(), t.n - got.back().end() - 2);
        }
        same("TokenIterator", got.size(), size_t(4));
        same("TokenIterator", got[1].len, e - 3);
    });
    add("split by list", 0, [parts](size_t b)
    {
        Text t("a,;b", SMILE, ",;c,", b);
        auto e = t.end_u();
        parts("split(list)", t, CALL("split(list)", ys::split(t, U",;", {SIZE_MAX, true})), {{0, 1}, {3, e - 3}, {e + 2, 1}});
    });
    add("split lines", 0, [parts](size_t b)
    {
        Text t("a\r\nb", SMILE, "\n\rc\n", b);
        auto e = t.end_u();
        parts("split_lines", t, CALL("split_lines", ys::split_lines(t)), {{0, 1}, {3, e - 3}, {e + 1, 0}, {e + 2, 1}, {t.n, 0}});
        parts("split_where", t, CALL("split_where", ys::split_where(t.v(), [](string_view s) { return ys::find_first_newline(s); }, {2, false})), {{0, 1}, {3, e - 3}, {e + 1, t.n - e - 1}});
    });
    add("ci::split", 2, [parts](size_t b)
    {
        Text t("ax", SMILE, "Xyx", b);
        auto e = t.end_u();
        parts("ci::split(list)", t, CALL("ci::split(list)", ci::split(t, U"x")), {{0, 1}, {2, e - 2}, {e + 1, 1}, {t.n, 0}});
        parts("ci::split(string)", t, CALL("ci::split(string)", ci::split(t, "X")), {{0, 1}, {2, e - 2}, {e + 1, 1}, {t.n, 0}});
    });
    add("ci::compare with a prefix", 5, [](size_t b)
    {
        // At the same address; a short one, and one that's shorter by 2^32 (2^31).
        Text t("ab\xC3\xA5", SMILE, "\xC3\xA5x", b);
        for (auto cut : {t.n - 8, size_t(1) << 31, size_t(1) << 32})
        {
            if (cut > t.n || t.n - cut > (size_t(1) << 26)) continue;
            auto w = t.v().substr(0, t.n - cut);
            while (!w.empty() && (uint8_t(t.p[w.size()]) & 0xC0) == 0x80) w.remove_suffix(1);
            same("ci::compare", CALL("ci::compare", ci::compare(t, w)) > 0, true);
            same("ci::compare", CALL("ci::compare", ci::compare(w, t)) < 0, true);
            same("ci::less", CALL("ci::less", ci::less(t, w)), false);
            same("ci::less", CALL("ci::less", ci::less(w, t)), true);
            same("ci::equal", CALL("ci::equal", ci::equal(t, w)), false);
            same("ci::starts_with", CALL("ci::starts_with", ci::starts_with(t, w)), true);
            same("ci::starts_with", CALL("ci::starts_with", ci::starts_with(w, t)), false);
        }
    });
    add("ci::compare", 2, [](size_t b)
    {
        Text t("ab", SMILE, "xyz", b), o("Ab", SMILE, "XYz", b), p("aB", SMILE, "xZa", b);
        same("ci::equal", CALL("ci::equal", ci::equal(t, o)), true);
        auto c = CALL("ci::compare", ci::compare(t, p));
        same("ci::compare", c < 0, true);
    });
    add("ci::less", 2, [](size_t b)
    {
        Text t("ab", SMILE, "xyz", b), p("aB", SMILE, "xZa", b);
        same("ci::less", CALL("ci::less", ci::less(p, t)), false);
        same("ci::compare", CALL("ci::compare", ci::compare(t, t.v().substr(0, t.n - 1))) > 0, true);
    });
    add("ci::starts_with", 2, [](size_t b)
    {
        Text t("ab", SMILE, "xyz", b), o("Ab", SMILE, "XY", b), p("aB", SMILE, "Xz", b);
        same("ci::starts_with", CALL("ci::starts_with", ci::starts_with(t, o)), true);
        same("ci::starts_with", CALL("ci::starts_with", ci::starts_with(t, p)), false);
    });
    add("ci::ends_with", 2, [](size_t b)
    {
        Text t("ab", SMILE, "xyz", b), o("B", SMILE, "XYZ", b), p("c", SMILE, "xyz", b);
        same("ci::ends_with", CALL("ci::ends_with", ci::ends_with(t, o)), true);
        same("ci::ends_with", CALL("ci::ends_with", ci::ends_with(t, p)), false);
    });
    add("ci::find_first", 0, [](size_t b)
    {
        Text t("nee", SMILE, "Needle-", b);
        range("ci::find_first", CALL("ci::find_first", ci::find_first(t, "nEEDLE")), t.end_u(), 6);
        range("ci::find_first", CALL("ci::find_first", ci::find_first(t, "E", t.end_u() + 3)), t.end_u() + 5, 1);
    });
    add("ci::find_last", 0, [](size_t b)
    {
        Text t("nEedle", SMILE, "eel", b);
        range("ci::find_last", CALL("ci::find_last", ci::find_last(t, "NEEDLE")), 0, 6);
        range("ci::find_last", CALL("ci::find_last", ci::find_last(t, "EE", t.n - 1)), t.end_u(), 2);
    });
    add("escapes", 0, [](size_t b)
    {
        Text t("z\\", SMILE, "\"\\u0041!", b);
        range("find_first_escapable_char", CALL("find_first_escapable_char", ys::find_first_escapable_char(t, 2)), t.end_u(), 1);
        range("find_first_escapable_char", CALL("find_first_escapable_char", ys::find_first_escapable_char(t, t.end_u() + 1)), t.end_u() + 1, 1);
        range("find_first_escaped_char", CALL("find_first_escaped_char", ys::find_first_escaped_char(t, 2)), t.end_u() + 1, 6);
        Text o("z", SMILE, "\xC3\xA5", b);
        same("has_escapable_chars", CALL("has_escapable_chars", ys::has_escapable_chars(o)), false);
        same("has_escaped_chars", CALL("has_escaped_chars", ys::has_escaped_chars(o)), false);
        auto v = t.v().substr(2);
        size_t n = 0;
        cur = "unescape_next";
        for (auto c = ys::unescape_next(v); c; c = ys::unescape_next(v)) ++n;
        same("unescape_next", n, t.k + 3);
    });
    add("steps", 0, [](size_t b)
    {
        Text t("z", SMILE, "\xC3\xA5", b);
        size_t n = 0;
        auto v = t.v();
        cur = "pop_utf8_codepoint";
        for (auto c = ys::pop_utf8_codepoint(v); c; c = ys::pop_utf8_codepoint(v)) if (++n == t.k + 1) same("pop_utf8_codepoint", size_t(*c), size_t(SMILE32));
        same("pop_utf8_codepoint", n, t.ncp());
        v = t; n = 0;
        cur = "remove_last_utf8_codepoint";
        while (ys::remove_last_utf8_codepoint(v)) ++n;
        same("remove_last_utf8_codepoint", n, t.ncp());
        auto begin = t.v().begin(), i = t.v().end();
        n = 0;
        cur = "skip_prev";
        while (ys::skip_prev(begin, i)) ++n;
        same("skip_prev", n, t.ncp());
    });
    add("runs of continuation bytes", 0, [](size_t b)
    {
        Text t("z", "\x80", "y", b);
        auto i = t.v().begin() + 1;
        same("skip_next", CALL("skip_next", ys::skip_next(i, t.v().end())), true);
        same("skip_next", size_t(i - t.v().begin()), t.end_u());
        i = t.v().begin() + ptrdiff_t(t.end_u());
        same("skip_prev", CALL("skip_prev", ys::skip_prev(t.v().begin(), i)), true);
        same("skip_prev", size_t(i - t.v().begin()), size_t(1));
        same("count_codepoints", CALL("count_codepoints", ys::count_codepoints(t)), size_t(3));
        same("replace_invalid_utf8", string_view(CALL("replace_invalid_utf8", ys::replace_invalid_utf8(t))), string_view("z\xEF\xBF\xBDy"));
    });
    // Long texts with short results
    add("replacing ranges", 0, [](size_t b)
    {
        Text t("\xC3\xA5z", SMILE, "\xE2\x82\xAC!", b);
        auto n = ptrdiff_t(t.ncp());
        same("replace_codepoints", string_view(CALL("replace_codepoints", ys::replace_codepoints(t, 1, n - 1, "<>"))), string_view("\xC3\xA5<>!"));
        same("replace_codepoints", string_view(CALL("replace_codepoints", ys::replace_codepoints(t, -n + 1, -1, "<>"))), string_view("\xC3\xA5<>!"));
    });
    add("replacing character ranges", 2, [](size_t b)
    {
        Text t("\xC3\xA5z", SMILE, "\xE2\x82\xAC!", b);
        auto n = ptrdiff_t(t.ncp());
        same("replace_chars", string_view(CALL("replace_chars", ys::replace_chars(t, 1, -1, "<>"))), string_view("\xC3\xA5<>!"));
        same("replace_chars", string_view(CALL("replace_chars", ys::replace_chars(t, -n + 1, n - 1, "<>"))), string_view("\xC3\xA5<>!"));
    });
    add("removing by replacing", 0, [](size_t b)
    {
        Text t("\xC3\xA5z", SMILE, "\xE2\x82\xAC!", b);
        same("replace", string_view(CALL("replace", ys::replace(t, SMILE, "", ptrdiff_t(t.k) - 1))), string_view(string("\xC3\xA5z") + SMILE + "\xE2\x82\xAC!"));
    });
    add("removing by ci::replace", 2, [](size_t b)
    {
        Text t("\xC3\xA5z", "wxyz", "\xE2\x82\xAC!", b);
        same("ci::replace", string_view(CALL("ci::replace", ci::replace(t, "WXYZ", "", ptrdiff_t(t.k) - 1))), string_view("\xC3\xA5zwxyz\xE2\x82\xAC!"));
    });
    add("removing one-byte units", 2, [](size_t b)
    {
        Text t("\xC3\xA5z", "a", "\xE2\x82\xAC!", b);
        same("replace", string_view(CALL("replace", ys::replace(t, "a", "", ptrdiff_t(t.k) - 1))), string_view("\xC3\xA5za\xE2\x82\xAC!"));
    });
    // Long results
    using F = string (*)(string_view);
    struct C { const char* name; F lib; string P, U, S, a, u, s; int kind; };
    static const string sm = SMILE;
    static const std::vector<C> copies = {
        {"to_upper", [](string_view s) { return ys::to_upper(s); }, "\xC3\xA5\xC3\x9F", sm, "\xC3\x9Fz", "\xC3\x85SS", sm, "SSZ", 3},
        {"to_lower", [](string_view s) { return ys::to_lower(s); }, "\xC3\x85Z", sm, "Q", "\xC3\xA5z", sm, "q", 3},
        {"to_title", [](string_view s) { return ys::to_title(s); }, "\xC3\x85Z", sm, "qQ", "\xC3\x85z", sm, "Qq", 3},
        {"to_title of one word", [](string_view s) { return ys::to_title(s); }, "xY", "\xC3\x85""b", "Q", "Xy", "\xC3\xA5""b", "q", 3},
        {"to_title of words", [](string_view s) { return ys::to_title(s); }, "xY", " aBc", "Q", "Xy", " Abc", "q", 3},
        {"to_upper growing", [](string_view s) { return ys::to_upper(s); }, "", "\xC9\xB1\xC5\x8A", "", "", "\xE2\xB1\xAE\xC5\x8A", "", 3},
        {"to_composed", [](string_view s) { return ys::to_composed(s); }, "e\xCC\x81", sm, "e\xCC\x81", "\xC3\xA9", sm, "\xC3\xA9", 3},
        {"to_composed of pairs", [](string_view s) { return ys::to_composed(s); }, "zy", "e\xCC\x81-", "e\xCC\x81", "zy", "\xC3\xA9-", "\xC3\xA9", 3},
        {"to_decomposed", [](string_view s) { return ys::to_decomposed(s); }, "\xC3\xA9", sm, "\xC3\xA9", "e\xCC\x81", sm, "e\xCC\x81", 3},
        {"to_decomposed of pairs", [](string_view s) { return ys::to_decomposed(s); }, "zy", "\xC3\xA9", "", "zy", "e\xCC\x81", "", 3},
        {"reverse", [](string_view s) { return ys::reverse(s); }, "\xC3\xA9", sm, "e\xCC\x81", "e\xCC\x81", sm, "\xC3\xA9", 3},
        {"reverse of pairs", [](string_view s) { return ys::reverse(s); }, "\xC3\xA9", "e\xCC\x81-", "x", "x", "-e\xCC\x81", "\xC3\xA9", 3},
        {"replace_invalid_utf8", [](string_view s) { return ys::replace_invalid_utf8(s); }, "\xC3", sm, "\x80\xFF", "\xEF\xBF\xBD", sm, "\xEF\xBF\xBD\xEF\xBF\xBD", 1},
        {"replace_invalid_utf8 growing", [](string_view s) { return ys::replace_invalid_utf8(s, U'\U0001F600'); }, "z", "\xC3", "z", "z", sm, "z", 3},
        {"escape_json", [](string_view s) { return ys::escape_json(s); }, "\n\x01", sm, "\"", "\\n\\u0001", sm, "\\\"", 1},
        {"escape_json growing", [](string_view s) { return ys::escape_json(s); }, "", "\\\n", "", "", "\\\\\\n", "", 3},
        {"unescape", [](string_view s) { return ys::unescape(string(s)); }, "\\n", sm, "\\u0041", "\n", sm, "A", 1},
        {"unescape of escapes", [](string_view s) { return ys::unescape(string(s)); }, "q", "\\\\\\n", "\\u0041", "q", "\\\n", "A", 1},
        {"append", [](string_view s) { return ys::append(s, U'\u20AC'); }, "q", sm, "z", "q", sm, "z\xE2\x82\xAC", 1},
        {"replace", [](string_view s) { return ys::replace(s, "qq", "xyz"); }, "qq", sm, "qqq", "xyz", sm, "xyzq", 1},
        {"replace, backwards", [](string_view s) { return ys::replace(s, "qq", "xyz", -2); }, "qq", sm, "qqq", "xyz", sm, "qxyz", 1},
        {"replace, backwards, all", [](string_view s) { return ys::replace(s, "ab", "x", PTRDIFF_MIN); }, "q", "abab", "a", "q", "xx", "a", 3},
        {"replace_codepoint", [](string_view s) { return ys::replace_codepoint(s, U'q', U'\u20AC'); }, "qa", sm, "q", "\xE2\x82\xAC""a", sm, "\xE2\x82\xAC", 1},
        {"ci::replace", [](string_view s) { return ci::replace(s, "Q", "xyz"); }, "q", sm, "qq", "xyz", sm, "xyzxyz", 3},
        {"ci::replace, backwards, all", [](string_view s) { return ci::replace(s, "AB", "x", PTRDIFF_MIN); }, "q", "abaB", "a", "q", "xx", "a", 3},
        {"insert_codepoints", [](string_view s) { return ys::insert_codepoints(s, -1, "<\xC3\xA5>"); }, "q", sm, "aq", "q", sm, "a<\xC3\xA5>q", 1},
        {"insert_chars", [](string_view s) { return ys::insert_chars(s, -2, "<\xC3\xA5>"); }, "q", sm, "a\xCC\x81q", "q", sm, "<\xC3\xA5>a\xCC\x81q", 1},
        {"insert_codepoint", [](string_view s) { return ys::insert_codepoint(s, 1, U'\u20AC'); }, "q", sm, "aq", "q\xE2\x82\xAC", sm, "aq", 1},
        {"insert_char", [](string_view s) { return ys::insert_char(s, -1, U'\u20AC'); }, "q", sm, "aq", "q", sm, "a\xE2\x82\xACq", 1},
        {"replace_chars", [](string_view s) { return ys::replace_chars(s, -1, PTRDIFF_MAX, "<\xC3\xA5>"); }, "q", sm, "a\xCC\x81", "q", sm, "<\xC3\xA5>", 1},
        {"replace_codepoints", [](string_view s) { return ys::replace_codepoints(s, 0, 1, "<\xC3\xA5>"); }, "q", sm, "a\xCC\x81", "<\xC3\xA5>", sm, "a\xCC\x81", 1},
        {"join of two", [](string_view s) { string_view p[] = {s.substr(0, 3), s.substr(3)}; return ys::join(p, p + 2, "--"); }, "qqq", sm, "a", "qqq--", sm, "a", 1},
        {"join with a long delimiter", [](string_view s) { string_view p[] = {"a", "b"}; return ys::join(p, p + 2, s); }, "qqq", sm, "a", "aqqq", sm, "ab", 1},
        {"insert a long text", [](string_view s) { return ys::insert_codepoints("xy", 1, s); }, "qqq", sm, "a", "xqqq", sm, "ay", 1},
        {"replace with a long text", [](string_view s) { return ys::replace("x-y", "-", s); }, "qqq", sm, "a", "xqqq", sm, "ay", 1},
        {"to_utf32 and back", [](string_view s) { return ys::from_utf32(ys::to_utf32(s)); }, "q\xC3\xA5", sm, "a", "q\xC3\xA5", sm, "a", 3},
    };
    for (auto& c : copies)
        add(c.name, c.kind, [&c](size_t b)
        {
            Text t(c.P, c.U, c.S, b - b % c.U.size());
            auto got = CALL(c.name, c.lib(t));
            composed_of<string>(c.name, got, c.a, c.u, t.k, c.s);
        });
    add("replace_invalid_utf8 in place", 3, [](size_t b)
    {
        Text t("\xC3", SMILE, "\x80", b);
        string s(t.v());
        CALL("replace_invalid_utf8 in place", ys::replace_invalid_utf8(s));
        composed_of<string>("replace_invalid_utf8 in place", s, "\xEF\xBF\xBD", SMILE, t.k, "\xEF\xBF\xBD");
    });
    add("unescape of a buffer", 3, [](size_t b)
    {
        Text t("\\n", SMILE, "\\u0041", b);
        string s(t.v());
        auto n = CALL("unescape of a buffer", ys::unescape(s.data(), s.size()));
        s.resize(n);
        composed_of<string>("unescape of a buffer", s, "\n", SMILE, t.k, "A");
    });
    // The same with escapes in the tail only: all but the last pages of the
    // buffer are never written to, so that even the longest is cheap.
    add("unescape of a sparse buffer", 0, [](size_t b)
    {
        static const char tail[] = "q\\n\\u0041\\x5Aw\\\\\\U0001F600!";
        static const char out[] = "q\nAZw\\\xF0\x9F\x98\x80!";
        size_t n = b + sizeof(tail) - 1;
        auto* m = static_cast<char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (m == MAP_FAILED) { printf("ERROR address space\n"); _Exit(2); }
        memcpy(m + b, tail, sizeof(tail) - 1);
        shape = std::to_string(b) + " zero bytes + " + esc(tail);
        bytes_read = std::max<uint64_t>(bytes_read, n);
        same("unescape of a sparse buffer", CALL("unescape of a sparse buffer", ys::unescape(m, n)), b + sizeof(out) - 1);
        same("unescape of a sparse buffer", string(m + b, sizeof(out) - 1), string(out));
        same("unescape of a sparse buffer", size_t(std::count(m + (b > 4096 ? b - 4096 : 0), m + b, '\0')), std::min(b, size_t(4096)));
        munmap(m, n);
    });
    add("to_utf32", 3, [](size_t b)
    {
        Text t("q\xC3\xA5", SMILE, "a", b);
        auto got = CALL("to_utf32", ys::to_utf32(t));
        composed_of<u32string>("to_utf32", got, U"q\u00E5", U"\U0001F600", t.k, U"a");
    });
    add("joining one-byte parts", 1, [](size_t b)
    {
        b = std::min(b, size_t(3) << 24);
        Text t("a", ",b", "", b), o("", ",b", "", b);
        std::vector<string_view> p(t.k + 1, "b");
        p[0] = "a";
        composed_of<string>("join", CALL("join", ys::join(p.begin(), p.end(), ",")), "a", ",b", t.k, "");
        composed_of<string>("join", CALL("join", ys::join(p.begin(), p.end())), "a", "b", t.k, "");
        composed_of<string>("join", CALL("join", ys::join(p.begin(), p.end(), "--")), "a", "--b", t.k, "");
        p[0] = "";
        composed_of<string>("join", CALL("join", ys::join(p.begin(), p.end(), ",")), "", ",b", t.k, "");
        for (auto& x : p) x = "";
        composed_of<string>("join", CALL("join", ys::join(p.begin(), p.end(), ",")), "", ",", t.k, "");
        same("split(string)", CALL("split(string)", ys::split(t, ",b")).size(), t.k + 1);
        same("split(string)", CALL("split(string)", ys::split(o, ",b", {SIZE_MAX, true})).size(), size_t(0));
    });
    add("many parts", 1, [](size_t b)
    {
        // (16 bytes each)
        b = std::min(b, size_t(3) << 24);
        Text t("a", "b,", "c", b);
        size_t i = 0, sum = 0;
        auto p = CALL("split(string)", ys::split(t, ","));
        same("split(string)", p.size(), t.k + 1);
        for (auto& v : p) { sum += v.size(); same("split(string)", size_t(v.data() - t.p), i ? 2 * i + 1 : 0); ++i; }
        same("split(string)", sum, t.n - t.k);
        p = CALL("split(list)", ys::split(t, U",", {t.k - 1, false}));
        same("split(list)", p.size(), t.k);
        p = CALL("split_lines", ys::split_lines(t));
        same("split_lines", p.size(), size_t(1));
        p = CALL("split(string)", ys::split(t, ","));
        composed_of<string>("join", CALL("join", ys::join(p.begin(), p.end(), ",")), t.P, t.U, t.k, t.S);
        composed_of<string>("replace", CALL("replace", ys::replace(t, ",", "<>", -ptrdiff_t(t.k))), "a", "b<>", t.k, "c");
        composed_of<string>("replace", CALL("replace", ys::replace(t, ",", "", ptrdiff_t(t.k))), "a", "b", t.k, "c");
        composed_of<string>("replace_codepoint", CALL("replace_codepoint", ys::replace_codepoint(t, U',', U'\u20AC', -ptrdiff_t(t.k) + 1)), "ab,", "b\xE2\x82\xAC", t.k - 1, "c");
    });
    // Positions and limits beyond what narrower integers hold, on a short text
    add("indices and limits far beyond the text", 0, [](size_t b)
    {
        Text t("\xC3\xA5", "ab", "e\xCC\x81,b", 6);
        auto n = ptrdiff_t(t.ncp()), nc = ptrdiff_t(t.nchars());
        string s(t.v());
        auto text = t.v();
        std::vector<uint64_t> far = {b};
        for (int w : {8, 15, 16, 24, 31, 32, 33, 40, 48, 53, 62, 63}) far.push_back(uint64_t(1) << w);
        for (auto f : far)
            for (int k = -3; k <= 12; ++k)
            {
                auto i = ptrdiff_t(f + uint64_t(ptrdiff_t(k))), j = ptrdiff_t(0 - f + uint64_t(ptrdiff_t(k)));
                if (i < 0 || (i <= n && i >= -n)) i = PTRDIFF_MAX - (k + 3);
                if (j > 0 || (j <= n && j >= -n)) j = PTRDIFF_MIN + (k + 3);
                auto all = string("\xC3\xA5") + "a--a--a--e\xCC\x81,--", none = string();
                for (auto l : {i, j})
                {
                    same("replace", string_view(CALL("replace", ys::replace(text, "b", "--", l))), string_view(all));
                    same("ci::replace", string_view(CALL("ci::replace", ci::replace(text, "B", "--", l))), string_view(all));
                    same("replace_codepoint", string_view(CALL("replace_codepoint", ys::replace_codepoint(text, U'a', U'b', l))), string_view("\xC3\xA5""bbbbbbe\xCC\x81,b"));
                    same("get_codepoint_pos", CALL("get_codepoint_pos", ys::get_codepoint_pos(text, l)), string::npos);
                    same("get_char_pos", CALL("get_char_pos", ys::get_char_pos(text, l)), string::npos);
                    range("get_char_range", CALL("get_char_range", ys::get_char_range(text, l)), 0, 0);
                    found("get_codepoint", CALL("get_codepoint", ys::get_codepoint(text, l)), 0, 0, ys::INVALID_CHAR);
                }
                same("split(string)", CALL("split(string)", ys::split(text, "b", {size_t(i), false})).size(), size_t(5));
                same("split(string)", CALL("split(string)", ys::split(text, "b", {size_t(j), true})).size(), size_t(4));
                same("split(list)", CALL("split(list)", ys::split(text, U"b", {size_t(i), false})).size(), size_t(5));
                same("split_lines", CALL("split_lines", ys::split_lines("a\nb\r\nc", {size_t(i), false})).size(), size_t(3));
                same("ci::split(string)", CALL("ci::split(string)", ci::split(text, "B", {size_t(i), false})).size(), size_t(5));
                same("get_codepoint_substring", CALL("get_codepoint_substring", ys::get_codepoint_substring(text, j, i)), text);
                same("get_codepoint_substring", CALL("get_codepoint_substring", ys::get_codepoint_substring(text, 1, i)), text.substr(2));
                same("get_codepoint_substring", CALL("get_codepoint_substring", ys::get_codepoint_substring(text, i)).size(), size_t(0));
                same("get_codepoint_substring", CALL("get_codepoint_substring", ys::get_codepoint_substring(text, -2, j)).size(), size_t(0));
                same("get_char_substring", CALL("get_char_substring", ys::get_char_substring(text, j, i)), text);
                same("get_char_substring", CALL("get_char_substring", ys::get_char_substring(text, 1, i)), text.substr(2));
                same("get_char_substring", CALL("get_char_substring", ys::get_char_substring(text, i)).size(), size_t(0));
                same("get_char_substring", CALL("get_char_substring", ys::get_char_substring(text, -2, j)).size(), size_t(0));
                range("find_last", CALL("find_last", ys::find_last(text, "b", size_t(i))), text.size() - 1, 1);
                range("ci::find_last", CALL("ci::find_last", ci::find_last(text, "B", size_t(i))), text.size() - 1, 1);
                (void)nc;
            }
    });
    return r;
}

int main(int argc, char** argv)
{
    bool list = false;
    size_t job = 0;
    std::vector<size_t> sizes;
    for (int i = 1; i < argc; ++i)
    {
        string a = argv[i];
        if (a == "--list") list = true;
        else if (a == "--job") job = std::stoull(argv[++i]);
        else if (a == "--bytes") for (char* p = argv[++i]; *p; p += *p == ',') sizes.push_back(strtoull(p, &p, 10));
    }
    uni::load();
    std::set_terminate(on_terminate);
    auto all = jobs();
    if (list) { for (auto& j : all) printf("%d %s\n", j.kind, j.name); return 0; }
    auto& j = all[job];
    job_name = j.name;
    auto t0 = std::chrono::steady_clock::now();
    for (auto b : sizes) j.f(b);
    rusage u{};
    getrusage(RUSAGE_SELF, &u);
    printf("OK calls=%llu text=%llu offset=%llu count=%llu ms=%lld peak_mb=%ld\n", (unsigned long long)calls, (unsigned long long)bytes_read, (unsigned long long)max_offset, (unsigned long long)max_count,
           (long long)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(), u.ru_maxrss >> 10);
    return 0;
}
